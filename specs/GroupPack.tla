----------------------------- MODULE GroupPack -----------------------------
(* Functions of each group's rows in row order: order statistics, selection by position, and rolling functions.
   x: codes of the rows; p/off: the packing (see GroupAgg); F: scale of fixed-point results; q = <<num, den>> a quantile. *)
EXTENDS GroupAgg

None(kind) == IF kind = "b1" THEN 0 ELSE INV    \* booleans have no invalid: false stands in
Size(off, b) == off[b + 2] - off[b + 1]
At(x, p, off, b, j) == x[p[off[b + 1] + j] + 1]        \* the group's j-th row, from 1

\* how often each value occurs among rows v(lo)..v(hi), invalids aside
Hist(v(_), lo, hi) ==
    LET D == {v(i) : i \in lo..hi} \ {INV} IN
    FoldIdx(LAMBDA h, i : IF v(i) = INV THEN h ELSE [h EXCEPT ![v(i)] = @ + 1], [d \in D |-> 0], lo, hi)
RECURSIVE HistTotal(_, _)
HistTotal(h, D) == IF D = {} THEN 0 ELSE LET d == CHOOSE d \in D : TRUE IN h[d] + HistTotal(h, D \ {d})
Least(D) == CHOOSE d \in D : \A e \in D : d <= e
\* the k-th smallest (from 0) of the bag with histogram h
RECURSIVE Kth(_, _, _)
Kth(h, D, k) == LET m == Least(D) IN IF k < h[m] THEN m ELSE Kth(h, D \ {m}, k - h[m])

TruncDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

\* twice the median
Median2(h, n) == IF n % 2 = 1 THEN 2 * Kth(h, DOMAIN h, n \div 2)
                 ELSE Kth(h, DOMAIN h, n \div 2) + Kth(h, DOMAIN h, n \div 2 - 1)
\* twice the quantile by midpoint
Quantile2(h, n, q) ==
    LET t == (n - 1) * q[1] k == t \div q[2] IN
    IF t % q[2] = 0 THEN 2 * Kth(h, DOMAIN h, k) ELSE Kth(h, DOMAIN h, k) + Kth(h, DOMAIN h, k + 1)
\* a quantile whose exact position a binary fraction cannot represent is not judged when it falls on a row
QExact(n, q) == q[2] \in {1, 2, 4, 8} \/ ((n - 1) * q[1]) % q[2] # 0

IsMode(h, r) == r \in DOMAIN h /\ (\A d \in DOMAIN h : h[d] < h[r] \/ (h[d] = h[r] /\ r <= d))

TrimCount(n) == IF n <= 900 THEN 1 ELSE IF n \in 930..3000 THEN 2 ELSE -1
\* mean of the values between the t-th smallest and the t-th largest
IsTrimmed(h, n, integer, F, r) ==
    LET t == TrimCount(n) IN
    IF t < 0 THEN TRUE
    ELSE IF n <= 2 * t THEN r = INV
    ELSE LET lb == Kth(h, DOMAIN h, t - 1) ub == Kth(h, DOMAIN h, n - t)
             D == {d \in DOMAIN h : lb <= d /\ d <= ub}
             S == FoldLeftSet(LAMBDA a, d : [n |-> a.n + h[d], s |-> a.s + h[d] * d], [n |-> 0, s |-> 0], D)
         IN IF integer THEN r = F * TruncDiv(S.s, S.n) ELSE r # INV /\ AbsI(r * S.n - F * S.s) <= S.n

\* one group's answer r for the functions with one result per group
GroupIs(fn, x, p, off, b, kind, nth, q, F, r) ==
    LET c == Size(off, b) v(j) == At(x, p, off, b, j)
        integer == kind \notin {"f4", "f8", "b1"}
    IN
    CASE fn = 100 -> r = (IF c = 0 THEN None(kind) ELSE v(1))
      [] fn = 102 -> r = (IF c = 0 THEN None(kind) ELSE v(c))
      [] fn = 101 -> LET k == IF nth >= 0 THEN nth ELSE c + nth IN r = (IF k >= 0 /\ k < c THEN v(k + 1) ELSE None(kind))
      [] OTHER ->
         LET h == TLCEval(Hist(v, 1, c)) n == HistTotal(h, DOMAIN h) IN
         IF kind = "b1" /\ n = 0 THEN TRUE ELSE
         CASE fn = 103 -> r = (IF n = 0 THEN INV ELSE IF kind = "b1" THEN (Median2(h, n) + 1) \div 2
                               ELSE IF integer THEN TruncDiv(Median2(h, n), 2) ELSE Median2(h, n))
           [] fn = 104 -> IF n = 0 THEN r = INV ELSE IsMode(h, r)
           [] fn = 105 -> IF n = 0 THEN r = INV ELSE IsTrimmed(h, n, integer, F, r)
           [] fn = 106 -> IF n = 0 \/ (q[3] = 0 /\ n # c) THEN r = INV
                          ELSE IF ~QExact(n, q) THEN TRUE
                          ELSE r = (IF kind = "b1" THEN (Quantile2(h, n, q) + 1) \div 2 ELSE Quantile2(h, n, q))
           [] OTHER -> FALSE

\* row j of a group of the rolling functions with window w
RollIs(fn, v(_), c, j, kind, w, q, F, r) ==
    LET lo == MaxI(1, j - w + 1)
        floaty == kind \in {"f4", "f8"}
        nan == fn \in {201, 206}
        s == StatsOf(v, lo, j, FALSE)
        clean == \A i \in 1..(lo - 1) : v(i) # INV       \* no invalid left the window before
    IN
    CASE fn \in {200, 201, 205, 206} ->
           IF ~nan /\ s.n # s.all THEN (IF floaty THEN r = INV ELSE TRUE)
           ELSE IF ~nan /\ (floaty \/ fn = 205) /\ ~clean THEN TRUE
           ELSE IF fn \in {200, 201} THEN r = s.sum
           ELSE IF s.n = 0 THEN r = INV ELSE IF r = INV THEN FALSE ELSE AbsI(r * s.n - F * s.sum) <= s.n
      [] fn = 202 -> IF j - w < 1 \/ j - w > c THEN r = INV
                     ELSE IF v(j) = INV \/ v(j - w) = INV THEN (IF floaty THEN r = INV ELSE TRUE)
                     ELSE r = v(j) - v(j - w)
      [] fn = 203 -> r = (IF j - w < 1 \/ j - w > c THEN None(kind) ELSE v(j - w))
      [] fn = 204 -> r = (IF w < 0 THEN c - j ELSE j - 1)
      [] fn = 207 -> LET h == Hist(v, lo, j) n == HistTotal(h, DOMAIN h) IN
                     IF n = 0 THEN r = INV ELSE IF ~QExact(n, q) THEN TRUE ELSE r = Quantile2(h, n, q)
      [] OTHER -> FALSE

PackAnswer(fn, x, kind, g, nbins, p, off, lo, w, q, F, out) ==
    /\ IsPacking(g, nbins, p, off)
    /\ IF fn < 200
       THEN Len(out) = nbins - lo /\ \A b \in lo..(nbins - 1) : GroupIs(fn, x, p, off, b, kind, w, q, F, out[b - lo + 1])
       ELSE /\ Len(out) = Len(g)
            /\ \A b \in lo..(nbins - 1) : \A j \in 1..Size(off, b) :
                 LET r == out[p[off[b + 1] + j] + 1] IN
                 IF b = 0 THEN r = INV \/ kind = "b1"
                 ELSE RollIs(fn, LAMBDA i : At(x, p, off, b, i), Size(off, b), j, kind, w, q, F, r)
=============================================================================
