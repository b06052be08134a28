------------------------------- MODULE Align -------------------------------
EXTENDS Codes
(* As-of alignment: v1 and v2 are sorted (INV entries take no part); rows match on equal keys.
   Backward: the last row of 2 at or before (before, when exact matches are not allowed) the value of the row of 1;
   forward: the first row of 2 at or after (after) it. *)
AlignAnswer(k1, k2, v1, v2, forward, exact, out) ==
    /\ Len(out) = Len(k1)
    /\ \A i \in 1..Len(k1) :
         LET ok(j) == IF v2[j] = INV THEN FALSE ELSE IF k1[i] # k2[j] THEN FALSE
                      ELSE IF v1[i] = v2[j] THEN exact = 1
                      ELSE IF forward = 1 THEN v2[j] > v1[i] ELSE v2[j] < v1[i]
             c == IF v1[i] = INV THEN {} ELSE {j \in 1..Len(k2) : ok(j)}
         IN out[i] = IF c = {} THEN INV
                     ELSE (IF forward = 1 THEN CHOOSE j \in c : \A x \in c : j <= x ELSE CHOOSE j \in c : \A x \in c : j >= x) - 1

(* The same for long tables without invalid entries, from a certificate: nx[j] is the next row of 2 with the key of row j
   (the previous one when forward) and st[i] the first (last) row of 2 with the key of row i of 1, INV for none. *)
Side(v, w, forward, exact) == IF v = w THEN exact = 1 ELSE IF forward = 1 THEN w > v ELSE w < v
ChainsOf(k2, nx, forward) ==
    LET ends == {j \in 1..Len(k2) : nx[j] = INV} IN
    /\ Len(nx) = Len(k2)
    /\ \A j \in 1..Len(k2) : nx[j] = INV \/ ( /\ IF forward = 1 THEN nx[j] + 1 < j ELSE nx[j] + 1 > j
                                             /\ nx[j] \in 0..(Len(k2) - 1) /\ k2[nx[j] + 1] = k2[j])
    /\ Cardinality(Range0(k2)) = Cardinality(ends)
    /\ Cardinality({nx[j] : j \in (1..Len(k2)) \ ends}) = Len(k2) - Cardinality(ends)
LongAlignAnswer(k1, k2, v1, v2, forward, exact, nx, st, out) ==
    LET K == TLCEval(Range0(k2)) N == TLCEval(Range0(nx)) IN
    /\ ChainsOf(k2, nx, forward) /\ Len(st) = Len(k1) /\ Len(out) = Len(k1)
    /\ \A i \in 1..Len(k1) :
        IF st[i] = INV THEN k1[i] \notin K /\ out[i] = INV
        ELSE /\ k2[st[i] + 1] = k1[i] /\ st[i] \notin N
             /\ IF out[i] = INV THEN ~Side(v1[i], v2[st[i] + 1], forward, exact)
                ELSE /\ out[i] \in 0..(Len(k2) - 1) /\ k2[out[i] + 1] = k1[i]
                     /\ Side(v1[i], v2[out[i] + 1], forward, exact)
                     /\ IF nx[out[i] + 1] = INV THEN TRUE ELSE ~Side(v1[i], v2[nx[out[i] + 1] + 1], forward, exact)
=============================================================================
