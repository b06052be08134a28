----------------------------- MODULE WindowMC -----------------------------
(* Design of the running variance: count n, n*mean and n*(sum of squared deviations) are updated from the entering and the
   leaving value only, as the incremental formulas do, and must stay equal to the definition over the window.
   Integers stand for the fractions: s = n * mean, ss = n * squared deviations. *)
EXTENDS Window
CONSTANTS MaxLen, Vals, Windows
VARIABLES x, w, j, n, s, ss
Init == /\ x \in UNION {[1..k -> Vals] : k \in 1..MaxLen} /\ w \in Windows /\ j = 0 /\ n = 0 /\ s = 0 /\ ss = 0
\* one value joins k values: mean += d/(k+1), ss += d * (v - mean')
Join(st, v) == LET d == v * st.n - st.s IN      \* n * delta
    IF st.n = 0 THEN [n |-> 1, s |-> v, q |-> 0]
    ELSE [n |-> st.n + 1, s |-> st.s + v, q |-> ((st.n + 1) * st.q + d * d) \div st.n]
\* one value leaves
Leave(st, v) == LET d == v * st.n - st.s IN
    IF st.n = 1 THEN [n |-> 0, s |-> 0, q |-> 0]
    ELSE [n |-> st.n - 1, s |-> st.s - v, q |-> ((st.n - 1) * st.q - d * d) \div st.n]
\* one value replaces another
Swap(st, old, v) == LET d == v - old s1 == st.s + d IN
    [n |-> st.n, s |-> s1, q |-> st.q + d * ((old * st.n - st.s) + (v * st.n - s1))]
Step ==
    /\ j < Len(x) /\ j' = j + 1
    /\ LET v == x[j + 1]
           old == IF j + 1 > w THEN x[j + 1 - w] ELSE INV
           st == [n |-> n, s |-> s, q |-> ss]
           t == IF v # INV /\ old # INV THEN Swap(st, old, v)
                ELSE IF v # INV THEN Join(st, v)
                ELSE IF old # INV THEN Leave(st, old) ELSE st
       IN n' = t.n /\ s' = t.s /\ ss' = t.q
    /\ UNCHANGED <<x, w>>
Spec == Init /\ [][Step]_<<x, w, j, n, s, ss>>
Right == j > 0 =>
    LET d == StatsOf(LAMBDA i : x[i], MaxI(1, j - w + 1), j, TRUE) IN
    n = d.n /\ s = d.sum /\ ss = d.n * d.ss - d.sum * d.sum
=============================================================================
