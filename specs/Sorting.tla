------------------------------- MODULE Sorting -------------------------------
(* What a sort is. Columns hold order ranks (INV = NaN, last in either direction); rows are numbered from 0. *)
EXTENDS Codes

\* compares two ranks: -1, 0, 1 in the direction asked for
Cmp(a, b, asc) == IF a = b THEN 0 ELSE IF a = INV THEN 1 ELSE IF b = INV THEN -1 ELSE IF (a < b) = asc THEN -1 ELSE 1
\* rows i, j of the columns; the last column is the primary key
RECURSIVE CmpRows(_, _, _, _, _)
CmpRows(cols, asc, i, j, k) ==
    IF k = 0 THEN 0 ELSE LET c == Cmp(cols[k][i + 1], cols[k][j + 1], asc[k]) IN IF c # 0 THEN c ELSE CmpRows(cols, asc, i, j, k - 1)

\* r lists rows of one partition base..base+n-1 (numbered from its start): non-decreasing, equal rows in the order of place(row).
\* Strictly increasing in (keys, place) with every row in range and the right length makes it the one stable permutation.
SortedRows(cols, asc, base, r, place(_), in(_)) ==
    /\ \A i \in 1..Len(r) : in(r[i])
    /\ \A i \in 1..(Len(r) - 1) :
         LET c == CmpRows(cols, asc, base + r[i], base + r[i + 1], Len(cols)) IN
         IF c = 0 THEN place(r[i]) < place(r[i + 1]) ELSE c < 0

\* a whole array, cut into partitions at cuts (ascending, the last is the length)
LexAnswer(cols, asc, cuts, r) ==
    /\ Len(r) = cuts[Len(cuts)]
    /\ \A p \in 1..Len(cuts) :
         LET lo == IF p = 1 THEN 0 ELSE cuts[p - 1] n == cuts[p] - lo IN
         SortedRows(cols, asc, lo, SubSeq(r, lo + 1, cuts[p]), LAMBDA x : x, LAMBDA x : 0 <= x /\ x < n)
\* only the rows of a starting index (distinct rows), equal rows in its order
IndexAnswer(cols, asc, start, r) ==
    LET at == [x \in {start[i] : i \in 1..Len(start)} |-> CHOOSE i \in 1..Len(start) : start[i] = x] IN
    /\ Len(r) = Len(start)
    /\ SortedRows(cols, asc, 0, r, LAMBDA x : at[x], LAMBDA x : x \in DOMAIN at)

Sorted(x) == \A i \in 1..(Len(x) - 1) : Cmp(x[i], x[i + 1], TRUE) <= 0
\* raw bytes have no documented order: equal rows together and in their original order
Grouped(x, r) ==
    /\ Len(r) = Len(x) /\ Range0(r) = 0..(Len(x) - 1)
    /\ \A i \in 1..(Len(r) - 1) : x[r[i] + 1] = x[r[i + 1] + 1] => r[i] < r[i + 1]
    /\ Cardinality({i \in 1..Len(r) : IF i = 1 THEN TRUE ELSE x[r[i] + 1] # x[r[i - 1] + 1]}) = Cardinality(Range0(x))

\* how often each rank occurs, NaN as rank -1; ranks below m
Counts(x, m) == FoldIdx(LAMBDA c, i : LET v == IF x[i] = INV THEN -1 ELSE x[i] IN [c EXCEPT ![v] = @ + 1], [v \in -1..(m - 1) |-> 0], 1, Len(x))
ValuesAnswer(x, m, r) ==
    /\ Len(r) = Len(x) /\ (\A i \in 1..Len(r) : r[i] = INV \/ (0 <= r[i] /\ r[i] < m)) /\ Sorted(r) /\ Counts(x, m) = Counts(r, m)
\* replace each key by the position its value has in the sort order: sort[answer] = key
IndirectAnswer(x, sort, r) == Len(r) = Len(x) /\ \A i \in 1..Len(x) : 0 <= r[i] /\ r[i] < Len(sort) /\ sort[r[i] + 1] = x[i]
=============================================================================
