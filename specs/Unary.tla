------------------------------- MODULE Unary -------------------------------
(* The one-operand elementwise operators. Values are codes in units of the trace's scale; u codes make one (for rounding). The invalid of an
   integer counts as NaN in the is/is-not tests; elsewhere it is the smallest (or largest) integer of its type. *)
EXTENDS Elementwise

Tests == {"isnan", "isnotnan", "isinf", "isnotinf", "isfinite", "isnotfinite", "isnormal", "isnotnormal", "isnanorzero", "lnot", "signbit"}
Rounders == {"floor", "ceil", "trunc", "round"}
Roots == {"sqrt", "cbrt"}

UnaryKind(f, k) ==
    CASE f \in Tests -> "b1"
      [] f \in Roots \cup {"log", "log2", "log10", "exp", "exp2"} -> IF k \in {"f4", "f16"} THEN k ELSE "f8"
      [] OTHER -> k

Fl(x, u) == x - (x % u)
RoundEven(x, u) == LET q == x \div u  m == 2 * (x % u) IN u * (IF m < u \/ (m = u /\ q % 2 = 0) THEN q ELSE q + 1)
Rounded(f, x, u) ==
    IF x = INV \/ Inf(x) THEN x
    ELSE CASE f = "floor" -> Fl(x, u) [] f = "ceil" -> -Fl(-x, u)
           [] f = "trunc" -> IF x < 0 THEN -Fl(-x, u) ELSE Fl(x, u)
           [] f = "round" -> RoundEven(x, u)

\* sub: every finite non-zero value of this array is subnormal
Finite(x) == x # INV /\ ~Inf(x)
Normal(x, sub) == Finite(x) /\ x # 0 /\ ~sub
Test(f, k, x, sub) ==
    Bool(CASE f = "isnan" -> x = INV [] f = "isnotnan" -> x # INV
           [] f = "isinf" -> Inf(x) [] f = "isnotinf" -> ~Inf(x)
           [] f = "isfinite" -> Finite(x) [] f = "isnotfinite" -> ~Finite(x)
           [] f = "isnormal" -> IF Float(k) THEN Normal(x, sub) ELSE TRUE
           [] f = "isnotnormal" -> IF Float(k) THEN ~Normal(x, sub) ELSE FALSE
           [] f = "isnanorzero" -> x = INV \/ x = 0
           [] f = "lnot" -> x = 0
           [] f = "signbit" -> x < 0)

Root(f, x, r) ==
    IF x = INV THEN r = INV
    ELSE IF f = "sqrt" THEN IF x < 0 THEN r = INV ELSE IF x = PINF THEN r = PINF ELSE r >= 0 /\ r < 40000 /\ r * r = x
    ELSE IF Inf(x) THEN r = x ELSE AbsI(r) <= 1200 /\ r * r * r = x

\* x stands for base^x (NINF: zero, ODD: a negative number)
LogOf(x) == IF x = ODD THEN INV ELSE x

IntUnary(f, x, W, k) ==
    CASE f = "abs" -> IF x = INV THEN INV ELSE IF x >= 0 THEN x ELSE Wrap(-x, W, Signed(k))
      [] f \in {"neg", "negative"} -> IF x = INV THEN INV ELSE Wrap(-x, W, Signed(k))
      [] f = "sign" -> IF x = INV THEN -1 ELSE Sgn(x)

\* bitwise not of an integer: -1 - x; unsigned results are counted down from the type's maximum
NotOf(x, k) == IF k = "b1" THEN 1 - x ELSE IF Signed(k) THEN -1 - x ELSE -x

UnaryElem(f, k, W, u, sub, x, r) ==
    IF f \in {"isnormal", "isnotnormal"} /\ IsInt(k) /\ x = INV THEN TRUE
    ELSE IF f \in Tests THEN r = Test(f, k, x, sub)
    ELSE IF f \in Rounders THEN r = Rounded(f, x, u)
    ELSE IF f \in Roots THEN Root(f, x, r)
    ELSE IF f \in {"log", "log2", "log10"} THEN r = LogOf(x)
    ELSE IF f \in {"exp", "exp2"} THEN r = (IF x = NINF THEN 0 ELSE IF x = INV \/ x = PINF THEN x ELSE PowN(2, x))
    ELSE IF f \in {"invert", "bnot"} THEN r = NotOf(x, k)
    ELSE IF Float(k) THEN r = (CASE f \in {"abs", "fabs"} -> IF x = INV THEN INV ELSE AbsI(x)
                                 [] f \in {"neg", "negative"} -> Neg(x)
                                 [] f = "sign" -> IF x = INV THEN INV ELSE Sgn(x))
    ELSE r = IntUnary(f, x, W, k)

UnaryAnswer(f, k, W, u, sub, a, r) ==
    /\ r.k = UnaryKind(f, k)
    /\ Len(r.v) = Len(a)
    /\ \A i \in 1..Len(a) : UnaryElem(f, IF k = "f16" THEN "f8" ELSE k, W, u, sub, a[i], r.v[i])
=============================================================================
