------------------------------- MODULE Stats -------------------------------
(* Statistics of a bag of values, in the value coding of Codes.tla: what each aggregate means. *)
EXTENDS Codes

Empty == [n |-> 0, all |-> 0, sum |-> 0, ss |-> 0, mn |-> INV, mx |-> INV, pinf |-> 0, ninf |-> 0]
(* n valid values out of all; sums over the finite ones *)
Add(s, v, sq) ==
    IF v = INV THEN [s EXCEPT !.all = @ + 1]
    ELSE IF IsNum(v)
    THEN [s EXCEPT !.n = @ + 1, !.all = @ + 1, !.sum = @ + v, !.ss = IF sq THEN @ + v * v ELSE 0,
                   !.mn = IF @ = INV THEN v ELSE MinI(@, v), !.mx = IF @ = INV THEN v ELSE MaxI(@, v)]
    ELSE [s EXCEPT !.n = @ + 1, !.all = @ + 1, !.pinf = @ + (IF v = PINF THEN 1 ELSE 0), !.ninf = @ + (IF v = NINF THEN 1 ELSE 0),
                   !.mn = IF @ = INV THEN v ELSE MinI(@, v), !.mx = IF @ = INV THEN v ELSE MaxI(@, v)]
\* over rows x(lo)..x(hi)
StatsOf(x(_), lo, hi, sq) == FoldIdx(LAMBDA s, i : Add(s, x(i), sq), Empty, lo, hi)

Infs(s) == s.pinf + s.ninf > 0
InfSum(s) == IF s.pinf > 0 THEN (IF s.ninf > 0 THEN INV ELSE PINF) ELSE NINF
Bad(s, nan) == ~nan /\ s.n # s.all      \* an aggregate that does not skip invalids is spoiled by one

\* r is the aggregate of the bag with statistics s.  F: fixed-point scale of fractional results.
SumIs(s, nan, r) == IF Bad(s, nan) THEN r = INV ELSE IF Infs(s) THEN r = InfSum(s) ELSE r = s.sum
MinIs(s, nan, r) == IF Bad(s, nan) \/ s.n = 0 THEN r = INV ELSE r = s.mn
MaxIs(s, nan, r) == IF Bad(s, nan) \/ s.n = 0 THEN r = INV ELSE r = s.mx
MeanIs(s, nan, F, r) ==
    IF Bad(s, nan) \/ s.n = 0 THEN r = INV
    ELSE IF Infs(s) THEN r = InfSum(s)
    ELSE IF IsNum(r) THEN AbsI(r * s.n - F * s.sum) <= s.n ELSE FALSE
\* sample variance (divisor n - d), r = F * variance rounded; the comparison allows one unit
VarIs(s, nan, F, d, r) ==
    IF Bad(s, nan) \/ s.n <= d \/ Infs(s) THEN r = INV
    ELSE IF IsNum(r) THEN AbsI(r * s.n * (s.n - d) - F * (s.n * s.ss - s.sum * s.sum)) <= s.n * (s.n - d) ELSE FALSE
StdIs(s, nan, F, d, r) ==
    IF Bad(s, nan) \/ s.n <= d \/ Infs(s) THEN r = INV
    ELSE IF IsNum(r) /\ r >= 0
    THEN LET v == F * F * (s.n * s.ss - s.sum * s.sum) den == s.n * (s.n - d)
         IN (r = 0 \/ (r - 1) * (r - 1) * den <= v) /\ v <= (r + 1) * (r + 1) * den
    ELSE FALSE
=============================================================================
