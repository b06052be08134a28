----------------------------- MODULE MaskedMC -----------------------------
(* Design of masked assignment in parallel: sections of the mask are counted, the counts become the place in the values where
   each section starts reading, and each section writes its own elements.  Every interleaving is the sequential assignment. *)
EXTENDS Masked
CONSTANTS N, Section
VARIABLES m, count, pos, read, dest
vars == <<m, count, pos, read, dest>>
Sections == (N + Section - 1) \div Section
First(s) == (s - 1) * Section + 1
\* the last section: the remainder, or a full section when there is none
LastCount == LET k == N % Section IN IF k = 0 THEN Section ELSE k
Size(s) == IF s = Sections THEN LastCount ELSE Section
Offset(s) == FoldIdx(LAMBDA t, d : t + count[d], 0, 1, s - 1)
Init == /\ m \in [1..N -> {0, 1}] /\ count = [s \in 1..Sections |-> -1]
        /\ pos = [s \in 1..Sections |-> 0] /\ read = [s \in 1..Sections |-> 0]
        /\ dest = [i \in 1..N |-> -i]
CountOne(s) == /\ count[s] = -1
               /\ count' = [count EXCEPT ![s] = Cardinality({i \in First(s)..(First(s) + Size(s) - 1) : m[i] = 1})]
               /\ UNCHANGED <<m, pos, read, dest>>
Counted == \A s \in 1..Sections : count[s] # -1
Step(s) == /\ Counted /\ pos[s] < Size(s) /\ pos' = [pos EXCEPT ![s] = @ + 1]
           /\ LET i == First(s) + pos[s] IN
              IF m[i] = 1
              THEN /\ read' = [read EXCEPT ![s] = @ + 1]
                   /\ dest' = [dest EXCEPT ![i] = Offset(s) + read[s] + 1]
              ELSE UNCHANGED <<read, dest>>
           /\ UNCHANGED <<m, count>>
Next == \E s \in 1..Sections : CountOne(s) \/ Step(s)
Spec == Init /\ [][Next]_vars
Cum == [i \in 1..N |-> Cardinality({j \in 1..i : m[j] = 1})]
Ended == Counted /\ \A s \in 1..Sections : pos[s] = Size(s)
Correct == Ended => \/ Total(Cum) = 0 /\ dest = [i \in 1..N |-> -i]
                    \/ Total(Cum) > 0 /\ Assigned([i \in 1..N |-> -i], m, Cum, [k \in 1..Total(Cum) |-> k], dest)
=============================================================================
