------------------------------- MODULE AlignMC -------------------------------
(* Design model of as-of alignment: two cursors over the sorted times, forward or backward, and a memory of the row of
   table 2 last passed for every key.  For all tables the finished answer is the declarative one. *)
EXTENDS Align
CONSTANTS Max1, Max2, Keys, Times
VARIABLES k1, k2, v1, v2, forward, exact, i, j, last, out
vars == <<k1, k2, v1, v2, forward, exact, i, j, last, out>>
Sorted(s) == \A x, y \in 1..Len(s) : IF x < y /\ s[x] # INV /\ s[y] # INV THEN s[x] <= s[y] ELSE TRUE
SortedSeqs(n) == {s \in [1..n -> Times \cup {INV}] : Sorted(s)}
Init == /\ \E n \in 0..Max1 : k1 \in [1..n -> Keys] /\ v1 \in SortedSeqs(n)
        /\ \E n \in 0..Max2 : k2 \in [1..n -> Keys] /\ v2 \in SortedSeqs(n)
        /\ forward \in {0, 1} /\ exact \in {0, 1}
        /\ i = (IF forward = 1 THEN Len(k1) ELSE 1) /\ j = (IF forward = 1 THEN Len(k2) ELSE 1)
        /\ last = [k \in Keys |-> INV] /\ out = [x \in 1..Len(k1) |-> 9]
Step(x) == IF forward = 1 THEN x - 1 ELSE x + 1
In1 == i >= 1 /\ i <= Len(k1)
In2 == j >= 1 /\ j <= Len(k2)
Pass2 == j' = Step(j) /\ last' = (IF v2[j] = INV THEN last ELSE [last EXCEPT ![k2[j]] = j - 1]) /\ UNCHANGED <<i, out>>
Give1 == i' = Step(i) /\ out' = [out EXCEPT ![i] = IF v1[i] = INV THEN INV ELSE last[k1[i]]] /\ UNCHANGED <<j, last>>
Next == /\ In1
        /\ IF ~In2 THEN Give1
           ELSE IF v1[i] = INV THEN Give1
           ELSE IF v2[j] = INV THEN Pass2
           ELSE IF v1[i] = v2[j] /\ exact = 0 THEN Give1
           ELSE IF (forward = 0 /\ v1[i] < v2[j]) \/ (forward = 1 /\ v1[i] > v2[j]) THEN Give1 ELSE Pass2
        /\ UNCHANGED <<k1, k2, v1, v2, forward, exact>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == ~In1 => AlignAnswer(k1, k2, v1, v2, forward, exact, out)
Ends == <>(~In1)
=============================================================================
