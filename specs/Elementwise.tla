--------------------------- MODULE Elementwise ---------------------------
(* The elementwise operators: what each operator gives for one pair of elements, in which type, and how scalars repeat.
   Integers are codes in units of the trace's scale: arithmetic is modulo 2^W (W = width of the type less the scale's bits; W = 0: the
   codes are small enough not to wrap). The invalid of a float is NaN; the invalid of an integer is only a number, which is
   mapped to the other type's invalid when its operand is converted to a wider type. *)
EXTENDS Codes, Bitwise

Pow2(n) == 2 ^ n
Signed(k) == k \in {"i1", "i2", "i4", "i8"}
Unsigned(k) == k \in {"u1", "u2", "u4", "u8"}
Float(k) == k \in {"f4", "f8"}
IsInt(k) == Signed(k) \/ Unsigned(k)
Width(k) == CASE k \in {"i1", "u1", "b1"} -> 8 [] k \in {"i2", "u2"} -> 16 [] k \in {"i4", "u4", "f4"} -> 32 [] OTHER -> 64
IKind(w) == CASE w <= 8 -> "i1" [] w <= 16 -> "i2" [] w <= 32 -> "i4" [] OTHER -> "i8"

\* the type in which two types meet
Common(a, b) ==
    IF a = b THEN a
    ELSE IF a = "b1" THEN b ELSE IF b = "b1" THEN a
    ELSE IF Float(a) \/ Float(b) THEN IF "f8" \in {a, b} THEN "f8" ELSE "f4"
    ELSE IF Signed(a) = Signed(b) THEN (IF Width(a) > Width(b) THEN a ELSE b)
    ELSE LET s == IF Signed(a) THEN a ELSE b  u == IF Signed(a) THEN b ELSE a IN
         IF Width(s) > Width(u) THEN s
         ELSE IF Width(u) = 64 THEN "f8" ELSE IKind(2 * Width(u))

Cmps == {"eq", "ne", "lt", "gt", "le", "ge"}
Bits == {"and", "or", "xor", "andnot", "notand", "xnor"}
OutKind(f, a, b) ==
    CASE f \in Cmps \cup {"land", "lor", "lxor"} -> "b1"
      [] f = "div" -> IF Common(a, b) = "f4" THEN "f4" ELSE "f8"
      [] f = "subdt" -> "f8"
      [] OTHER -> Common(a, b)

(* ---- numbers with infinities and NaN ---- *)
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Inf(x) == x = PINF \/ x = NINF
Neg(x) == IF x = INV THEN INV ELSE -x
FAdd(x, y) == IF x = INV \/ y = INV THEN INV
              ELSE IF Inf(x) /\ Inf(y) THEN (IF x = y THEN x ELSE INV)
              ELSE IF Inf(x) THEN x ELSE IF Inf(y) THEN y ELSE x + y
FMul(x, y) == IF x = INV \/ y = INV THEN INV
              ELSE IF Inf(x) \/ Inf(y) THEN (IF x = 0 \/ y = 0 THEN INV ELSE IF Sgn(x) = Sgn(y) THEN PINF ELSE NINF)
              ELSE x * y
FloorDivN(x, y) == IF y > 0 THEN x \div y ELSE (-x) \div (-y)
FloorModN(x, y) == IF y > 0 THEN x % y ELSE -((-x) % (-y))
TruncMod(x, y) == Sgn(x) * (AbsI(x) % AbsI(y))
RECURSIVE PowN(_, _)
PowN(x, n) == IF n = 0 THEN 1 ELSE x * PowN(x, n - 1)

(* ---- integers modulo 2^W ---- *)
Pattern(x, W) == x % Pow2(W)
Wrap(x, W, sgn) == IF W = 0 THEN x ELSE LET p == Pattern(x, W) IN IF sgn /\ p >= Pow2(W - 1) THEN p - Pow2(W) ELSE p
SentinelOf(W, sgn) == IF sgn THEN -Pow2(W - 1) ELSE Pow2(W) - 1

\* an operand's value in the common type (W = 0: the smallest integer itself, used with divisors 1 and -1 only)
Val(x, c, W) == IF x = INV /\ IsInt(c) /\ W # 0 THEN SentinelOf(W, Signed(c)) ELSE x

BitOp(f, x, y, W) ==
    LET p == Pattern(x, W)  q == Pattern(y, W)  ones == Pow2(W) - 1 IN
    CASE f = "and" -> p & q [] f = "or" -> p | q [] f = "xor" -> p ^^ q
      [] f = "andnot" -> p & (ones - q) [] f = "notand" -> (ones - p) & q

Compare(f, x, y) ==
    LET n == x = INV \/ y = INV IN
    Bool(CASE f = "eq" -> ~n /\ x = y [] f = "ne" -> n \/ x # y [] f = "lt" -> ~n /\ x < y
           [] f = "gt" -> ~n /\ x > y [] f = "le" -> ~n /\ x <= y [] f = "ge" -> ~n /\ x >= y)

BoolOp(f, x, y) ==
    CASE f \in {"add", "or", "lor", "max"} -> MaxI(x, y)
      [] f \in {"mul", "and", "land", "min"} -> MinI(x, y)
      [] f \in {"sub", "andnot"} -> IF x = 1 /\ y = 0 THEN 1 ELSE 0
      [] f = "notand" -> IF x = 0 /\ y = 1 THEN 1 ELSE 0
      [] f \in {"xor", "lxor"} -> IF x # y THEN 1 ELSE 0

FloatOp(f, x, y) ==
    CASE f = "add" -> FAdd(x, y) [] f = "sub" -> FAdd(x, Neg(y)) [] f = "mul" -> FMul(x, y)
      [] f = "min" -> IF x = INV \/ y = INV THEN INV ELSE MinI(x, y)
      [] f = "max" -> IF x = INV \/ y = INV THEN INV ELSE MaxI(x, y)
      [] f = "floordiv" -> IF x = INV \/ y = INV THEN INV ELSE FloorDivN(x, y)
      [] f \in {"mod", "rem"} -> IF x = INV \/ y = INV THEN INV ELSE FloorModN(x, y)
      [] f = "pow" -> IF x = INV THEN INV ELSE PowN(x, y)

IntOp(f, x, y, W, sgn) ==
    CASE f = "add" -> Wrap(x + y, W, sgn) [] f = "sub" -> Wrap(x - y, W, sgn) [] f = "mul" -> Wrap(x * y, W, sgn)
      [] f = "min" -> MinI(x, y) [] f = "max" -> MaxI(x, y)
      [] f = "floordiv" -> IF y = 0 THEN 0 ELSE IF x = INV THEN (IF y \in {1, -1} THEN INV ELSE ODD) ELSE Wrap(FloorDivN(x, y), W, sgn)
      [] f = "mod" -> IF y = 0 \/ (x = INV /\ y \in {1, -1}) THEN 0 ELSE TruncMod(x, y)
      [] f = "pow" -> Wrap(PowN(x, y), W, sgn)
      [] f \in Bits -> Wrap(BitOp(f, x, y, W), W, sgn)

\* one element of the result (everything but a quotient)
Elem(f, c, W, x, y) ==
    LET u == Val(x, c, W)  v == Val(y, c, W) IN
    IF f \in Cmps THEN Compare(f, u, v)
    ELSE IF c = "b1" THEN BoolOp(f, u, v)
    ELSE IF Float(c) THEN FloatOp(f, u, v)
    ELSE IntOp(f, u, v, W, Signed(c))

\* a quotient r = <<numerator, denominator>> (denominator 0: the special value in the numerator)
Quotient(x, y, r) ==
    IF x = INV \/ y = INV \/ (Inf(x) /\ Inf(y)) \/ (x = 0 /\ y = 0) THEN r = <<INV, 0>>
    ELSE IF Inf(x) THEN r = <<IF y < 0 THEN -x ELSE x, 0>>
    ELSE IF Inf(y) THEN r[1] = 0 /\ r[2] # 0
    ELSE IF y = 0 THEN r = <<IF x > 0 THEN PINF ELSE NINF, 0>>
    ELSE r[2] # 0 /\ r[1] * y = x * r[2]

\* a difference of two instants is NaN (of two dates: 0) when either is missing (0 or the invalid)
DateDiff(x, y, missing) == IF x = 0 \/ y = 0 \/ x = INV \/ y = INV THEN missing ELSE x - y

At(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]
Length(a, b) == IF Len(a) = 1 THEN Len(b) ELSE Len(a)
ElementwiseAnswer(f, ka, kb, W, a, b, r) ==
    LET c == Common(ka, kb) IN
    /\ r.k = OutKind(f, ka, kb)
    /\ Len(r.v) = Length(a, b)
    /\ \A i \in 1..Len(r.v) :
          IF f = "div" THEN Quotient(At(a, i), At(b, i), r.v[i])
          ELSE IF f = "subdt" THEN r.v[i] = DateDiff(At(a, i), At(b, i), INV)
          ELSE IF f = "subdates" THEN r.v[i] = DateDiff(At(a, i), At(b, i), 0)
          ELSE r.v[i] = Elem(f, c, W, At(a, i), At(b, i))
=============================================================================
