------------------------------ MODULE ConfigMC ------------------------------
(* Why sharing blocks among workers cannot show: workers take blocks of a value sequence in any order, each keeps a partial sum,
   a partial maximum with the place of its first occurrence, and writes its blocks of an output; the submitter then combines.
   Every sequence over Vals of length Len, every schedule, every number of workers that happen to take part. *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Vals, N, Block, Workers
W == 1..Workers
Blocks == 0..((N + Block - 1) \div Block) - 1
VARIABLES x, next, hold, sum, best, out
vars == <<x, next, hold, sum, best, out>>
None == [v |-> -1, at |-> N]
Range(b) == {i \in 1..N : i > b * Block /\ i <= (b + 1) * Block}
RECURSIVE SumOf(_)
SumOf(r) == IF r = {} THEN 0 ELSE LET i == CHOOSE i \in r : TRUE IN x[i] + SumOf(r \ {i})
Better(p, q) == IF p.v > q.v \/ (p.v = q.v /\ p.at < q.at) THEN p ELSE q
\* within a block the first place of the maximum
BestOf(r) == LET m == CHOOSE m \in {x[i] : i \in r} : \A i \in r : x[i] <= m
             IN [v |-> m, at |-> CHOOSE i \in r : x[i] = m /\ \A j \in r : x[j] = m => i <= j]
Init == /\ x \in [1..N -> Vals] /\ next = 0 /\ hold = [w \in W |-> -1] /\ sum = [w \in W |-> 0]
        /\ best = [w \in W |-> None] /\ out = [i \in 1..N |-> -1]
Take(w) == hold[w] = -1 /\ next \in Blocks /\ hold' = [hold EXCEPT ![w] = next] /\ next' = next + 1 /\ UNCHANGED <<x, sum, best, out>>
Do(w) == /\ hold[w] # -1
         /\ LET r == Range(hold[w]) IN
            /\ sum' = [sum EXCEPT ![w] = @ + SumOf(r)]
            /\ best' = [best EXCEPT ![w] = Better(@, BestOf(r))]
            /\ out' = [i \in 1..N |-> IF i \in r THEN 2 * x[i] ELSE out[i]]
         /\ hold' = [hold EXCEPT ![w] = -1] /\ UNCHANGED <<x, next>>
Next == \E w \in W : Take(w) \/ Do(w)
Spec == Init /\ [][Next]_vars
Over == next \notin Blocks /\ \A w \in W : hold[w] = -1
RECURSIVE Total(_)
Total(w) == IF w = 0 THEN 0 ELSE sum[w] + Total(w - 1)
RECURSIVE Top(_)
Top(w) == IF w = 0 THEN None ELSE Better(best[w], Top(w - 1))
OneResult == Over => Total(Workers) = SumOf(1..N) /\ Top(Workers) = BestOf(1..N) /\ \A i \in 1..N : out[i] = 2 * x[i]
=============================================================================
