------------------------------ MODULE Grouping ------------------------------
(* What it means to group rows by their keys.  A row's key is an integer or a tuple of integers.
   Groups are numbered 1.. in order of first appearance; 0 is the bin of rows the filter drops. *)
EXTENDS Codes

Live(f, i) == IF Len(f) = 0 THEN TRUE ELSE f[i] = 1    \* an empty filter keeps every row

(* The declarative meaning: ikey/ifirst/n is THE grouping of rows under f (the only triple that satisfies this). *)
IsGrouping(rows, f, ikey, ifirst, n) ==
    LET N == Len(rows) IN
    /\ Len(ikey) = N
    /\ Len(ifirst) = n
    /\ \A g \in 1..n : ifirst[g] \in 0..(N - 1)
    /\ StrictlyIncreasing(ifirst)                                       \* numbered in order of first appearance
    /\ \A g \in 1..n : Live(f, ifirst[g] + 1) /\ ikey[ifirst[g] + 1] = g
    /\ \A i \in 1..N :
         IF Live(f, i)
         THEN /\ ikey[i] \in 1..n
              /\ ifirst[ikey[i]] <= i - 1                                \* the representative is the first row
              /\ rows[ifirst[ikey[i]] + 1] = rows[i]                     \* equal keys
         ELSE ikey[i] = 0
    /\ Cardinality({rows[ifirst[g] + 1] : g \in 1..n}) = n              \* distinct groups, distinct keys

(* The same thing operationally: scan the rows, numbering each new key. *)
EmptyScan == [num |-> <<>>, ikey |-> <<>>, ifirst |-> <<>>]
NumOf(s, k) == IF \E g \in DOMAIN s.num : s.num[g] = k THEN CHOOSE g \in DOMAIN s.num : s.num[g] = k ELSE 0
ScanRow(s, k, live, i) ==
    IF ~live THEN [s EXCEPT !.ikey = Append(@, 0)]
    ELSE LET g == NumOf(s, k) IN
         IF g > 0 THEN [s EXCEPT !.ikey = Append(@, g)]
         ELSE [num |-> Append(s.num, k), ikey |-> Append(s.ikey, Len(s.num) + 1), ifirst |-> Append(s.ifirst, i - 1)]

(* Per-group lists of rows, ascending *)
Members(ikey, g) == Pos0(Len(ikey), LAMBDA i : ikey[i] = g)

(* the linked occurrence lists MultiKeyHash reports, given the grouping *)
OccurrenceLinks(ikey, n, nth, size, prev, next, first, last) ==
    LET N == Len(ikey) IN
    /\ Len(nth) = N /\ Len(size) = N /\ Len(prev) = N /\ Len(next) = N /\ Len(first) = N /\ Len(last) = N
    /\ \A i \in 1..N :
         /\ IF prev[i] = -1 THEN nth[i] = 1 /\ first[i] = i - 1
            ELSE /\ prev[i] \in 0..(i - 2)
                 /\ LET p == prev[i] + 1 IN ikey[p] = ikey[i] /\ next[p] = i - 1 /\ nth[i] = nth[p] + 1 /\ first[i] = first[p]
         /\ IF next[i] = -1 THEN size[i] = nth[i] /\ last[i] = i - 1
            ELSE /\ next[i] \in i..(N - 1)
                 /\ LET q == next[i] + 1 IN prev[q] = i - 1 /\ size[i] = size[q] /\ last[i] = last[q]
    \* as many chains as groups: every group is a single ascending chain
    /\ Cardinality({i \in 1..N : prev[i] = -1}) = n

FoldLeftCount(ikey, n) == FoldIdx(LAMBDA c, i : [c EXCEPT ![ikey[i]] = @ + 1], [g \in 0..n |-> 0], 1, Len(ikey))
=============================================================================
