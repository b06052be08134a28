----------------------------- MODULE Operators -----------------------------
(* Python's operators on arrays of the library's class: the answers of the elementwise functions (Elementwise), for every way of
   writing them: array or scalar on either side, in place, powers, shifts, one operand. Numbers are small codes (W = 0: nothing wraps). A scalar is Python's "pi" (integer), "pf" (float) or "pb" (truth value). *)
EXTENDS Elementwise

Scalar(k) == k \in {"pi", "pf", "pb"}
\* a Python scalar takes the array's type if that can hold such a number
Kind(k, other) ==
    CASE k = "pb" -> "b1"
      [] k = "pi" -> IF other = "b1" THEN "i8" ELSE other
      [] k = "pf" -> IF Float(other) THEN other ELSE "f8"
      [] OTHER -> k
Kinds2(ka, kb) == <<Kind(ka, kb), Kind(kb, ka)>>

Op(f, c, x, y) ==
    CASE f \in {"shl", "shr"} -> IF f = "shl" THEN x * Pow2(y) ELSE x \div Pow2(y)
      [] f = "pow" -> IF x = INV THEN INV ELSE PowN(x, y)
      [] f \in {"and", "or", "xor"} -> IF c = "b1" THEN BoolOp(f, x, y) ELSE LET p == BitOp(f, x, y, 16) IN IF Signed(c) /\ p >= Pow2(15) THEN p - Pow2(16) ELSE p
      [] OTHER -> Elem(f, c, 0, x, y)

Answer(f, ka, kb, a, b, r) ==
    LET K == Kinds2(ka, kb)  c == Common(K[1], K[2]) IN
    /\ r.k = (IF f \in {"shl", "shr"} THEN K[1] ELSE OutKind(f, K[1], K[2]))
    /\ Len(r.v) = Length(a, b)
    /\ \A i \in 1..Len(r.v) :
          IF f = "div" THEN Quotient(At(a, i), At(b, i), r.v[i]) ELSE r.v[i] = Op(f, c, At(a, i), At(b, i))

\* in place: the array keeps its type (numbers lose what the type cannot hold); it is the same array when both operands have its type
InPlace(f, ka, kb, a, b, r) ==
    LET K == Kinds2(ka, kb)  c == Common(K[1], K[2])  out == IF f \in {"shl", "shr"} THEN K[1] ELSE OutKind(f, K[1], K[2]) IN
    /\ r.k = ka /\ Len(r.v) = Len(a)
    /\ out = ka /\ K = <<ka, ka>> => r.self = 1
    /\ \A i \in 1..Len(a) :
          IF f = "div" /\ Float(ka) THEN Quotient(a[i], At(b, i), r.v[i])
          ELSE r.v[i] = Op(f, c, a[i], At(b, i))

One(f, k, x) ==
    CASE f = "neg" -> Neg(x)
      [] f = "abs" -> IF x = INV THEN INV ELSE AbsI(x)
      [] f = "inv" -> IF k = "b1" THEN 1 - x ELSE IF Signed(k) THEN -x - 1 ELSE Pow2(Width(k)) - 1 - x
Single(f, k, x, r) == r.k = k /\ Len(r.v) = Len(x) /\ \A i \in 1..Len(x) : r.v[i] = One(f, k, x[i])
=============================================================================
