------------------------------- MODULE Reduce -------------------------------
(* Reducing one array to one value. x: codes of the array in iteration order; f: which reduction; nan: skip invalids. *)
EXTENDS Stats

Skips(f) == f \in {"nansum", "nanmean", "nanvar", "nanstd", "nanmin", "nanmax", "nanargmin", "nanargmax"}
Base(f) == CASE f = "nansum" -> "sum" [] f = "nanmean" -> "mean" [] f = "nanvar" -> "var" [] f = "nanstd" -> "std" [] f = "nanmin" -> "min"
             [] f = "nanmax" -> "max" [] f = "nanargmin" -> "argmin" [] f = "nanargmax" -> "argmax" [] OTHER -> f

\* the first position (from 0) whose value satisfies P, or -1
FirstAt(x, P(_)) == LET S == Pos0(Len(x), LAMBDA k : P(x[k])) IN IF S = <<>> THEN -1 ELSE S[1]
ArgMin(s, x) == FirstAt(x, LAMBDA v : v = s.mn)
ArgMax(s, x) == FirstAt(x, LAMBDA v : v = s.mx)

\* q = <<num, den>> in lowest terms is the fraction a/b (b > 0), without products larger than a
Equals(q, a, b) == q[2] > 0 /\ b % q[2] = 0 /\ q[1] * (b \div q[2]) = a

MeanIsQ(s, nan, q) ==
    IF Bad(s, nan) THEN q = <<INV, 0>>
    ELSE IF s.n = 0 THEN q = <<0, 1>>
    ELSE IF Infs(s) THEN q = <<InfSum(s), 0>>
    ELSE Equals(q, s.sum, s.n)
\* the variance with divisor n - d. When the sum is zero (long inputs are given relative to a centre), it is ss / (n - d).
VarIsQ(s, nan, d, q) ==
    IF Bad(s, nan) \/ s.n <= d \/ Infs(s) THEN q = <<INV, 0>>
    ELSE IF s.sum = 0 THEN Equals(q, s.ss, s.n - d)
    ELSE Equals(q, s.n * s.ss - s.sum * s.sum, s.n * (s.n - d))

\* r = [t |-> "num", v |-> code, q |-> fraction] or [t |-> "raise"]
ReduceAnswer(f, x, c, d, r) ==
    LET nan == Skips(f)
        b == Base(f)
        s == StatsOf(LAMBDA i : x[i], 1, Len(x), FALSE)
        \* relative to the centre c
        z == StatsOf(LAMBDA i : IF IsNum(x[i]) THEN x[i] - c ELSE x[i], 1, Len(x), TRUE)
    IN IF b \in {"argmin", "argmax"}
       THEN IF Bad(s, nan) THEN r.t = "num" /\ r.v = FirstAt(x, LAMBDA v : v = INV)
            ELSE IF s.n = 0 THEN r.t = "raise"
            ELSE r.t = "num" /\ r.v = (IF b = "argmin" THEN ArgMin(s, x) ELSE ArgMax(s, x))
       ELSE /\ r.t = "num"
            /\ CASE b = "sum" -> SumIs(s, nan, r.v)
                 [] b = "min" -> MinIs(s, nan, r.v)
                 [] b = "max" -> MaxIs(s, nan, r.v)
                 [] b = "mean" -> MeanIsQ(s, nan, r.q)
                 [] b \in {"var", "std"} -> VarIsQ(z, nan, d, r.q)
                 [] OTHER -> FALSE
=============================================================================
