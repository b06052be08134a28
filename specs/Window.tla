------------------------------- MODULE Window -------------------------------
(* Functions of a series over the window of the last w rows, and over the rows within a time span.  Values are coded as in
   Codes.tla; fractional answers are fixed-point with scale F. *)
EXTENDS GroupPack

\* row i of the function fn of series x (x(j) for j in 1..i)
SeriesIs(fn, x(_), i, kind, w, q, F, r) ==
    LET lo == MaxI(1, i - w + 1)
        floaty == kind \in {"f4", "f8"}
        clean == \A j \in 1..(lo - 1) : x(j) # INV
        s == StatsOf(x, lo, i, TRUE)
    IN
    CASE fn = 0 -> RollIs(200, x, i, i, kind, w, q, F, r)
      [] fn = 1 -> RollIs(201, x, i, i, kind, w, q, F, r)
      [] fn = 102 -> RollIs(205, x, i, i, kind, w, q, F, r)
      [] fn = 103 -> RollIs(206, x, i, i, kind, w, q, F, r)
      [] fn = 104 -> RollIs(207, x, i, i, kind, w, q, F, r)
      [] fn \in {106, 108} -> IF s.n # s.all THEN r = INV ELSE IF ~clean THEN TRUE
                              ELSE IF fn = 106 THEN VarIs(s, FALSE, F, 0, r) ELSE StdIs(s, FALSE, F, 0, r)
      [] fn = 107 -> VarIs(s, TRUE, F, 0, r)
      [] fn = 109 -> StdIs(s, TRUE, F, 0, r)
      [] OTHER -> FALSE
Series(fn, x, kind, w, q, F, r) == Len(r) = Len(x) /\ \A i \in 1..Len(x) : SeriesIs(fn, LAMBDA j : x[j], i, kind, w, q, F, r[i])

\* a rolling sum of a long series changes by what enters and what leaves
LongSum(x, w, r) == LET v(j) == IF x[j] = INV THEN 0 ELSE x[j] IN
    Len(r) = Len(x) /\ \A i \in 1..Len(x) : r[i] = (IF i = 1 THEN 0 ELSE r[i - 1]) + v(i) - (IF i > w THEN v(i - w) ELSE 0)

\* the window of row i in time: back to the first row more than d older
RECURSIVE Since(_, _, _, _)
Since(t, d, i, j) == IF j = 1 THEN 1 ELSE IF t[i] - t[j - 1] <= d THEN Since(t, d, i, j - 1) ELSE j
TimeIs(fn, x, t, d, i, r) ==
    LET lo == Since(t, d, i, i) IN
    IF \E j \in lo..i : x[j] = INV THEN r = INV
    ELSE r = (IF fn = 0 THEN FoldIdx(LAMBDA a, j : a + x[j], 0, lo, i) ELSE FoldIdx(LAMBDA a, j : a * x[j], 1, lo, i))
TimeSeries(fn, x, t, d, r) == Len(r) = Len(x) /\ \A i \in 1..Len(x) : TimeIs(fn, x, t, d, i, r[i])
=============================================================================
