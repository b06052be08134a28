----------------------------- MODULE PackingMC -----------------------------
(* The parallel packing: each worker counts its own stretch of the rows into its own column; the columns become write
   positions by one running sum over (group, worker); then the workers scatter their rows, interleaved in any way. *)
EXTENDS Packing
CONSTANTS MaxRows, NB, Cores
VARIABLES key, pos, rows, at, first, count
vars == <<key, pos, rows, at, first, count>>
n == Len(key)
lo(t) == ((t - 1) * n) \div Cores
hi(t) == (t * n) \div Cores
Col(k, t) == [b \in 0..(NB - 1) |-> Cardinality({i \in (((t - 1) * Len(k)) \div Cores + 1)..((t * Len(k)) \div Cores) : k[i] = b})]
Before(k, b, t) == \* rows written before worker t's rows of group b
    LET S == {<<c, u>> \in (0..(NB - 1)) \X (1..Cores) : c < b \/ (c = b /\ u < t)}
    IN FoldLeftSet(LAMBDA acc, x : acc + Col(k, x[2])[x[1]], 0, S)
Init == \E m \in 1..MaxRows : \E k \in [1..m -> (0 - 1)..NB] :
    /\ key = k
    /\ pos = [t \in 1..Cores |-> [b \in 0..(NB - 1) |-> Before(k, b, t)]]
    /\ first = [b \in 1..NB |-> Before(k, b - 1, 1)]
    /\ count = [b \in 1..NB |-> Cardinality({i \in 1..m : k[i] = b - 1})]
    /\ rows = [i \in 1..m |-> -1]
    /\ at = [t \in 1..Cores |-> ((t - 1) * m) \div Cores]
Scatter(t) ==
    /\ at[t] < hi(t) /\ at' = [at EXCEPT ![t] = @ + 1]
    /\ LET b == key[at[t] + 1] IN
       IF b < 0 \/ b >= NB THEN UNCHANGED <<rows, pos>>
       ELSE /\ rows' = [rows EXCEPT ![pos[t][b] + 1] = at[t]]
            /\ pos' = [pos EXCEPT ![t][b] = @ + 1]
    /\ UNCHANGED <<key, first, count>>
Next == \E t \in 1..Cores : Scatter(t)
Done == \A t \in 1..Cores : at[t] = hi(t)
Packed == Done => /\ Slices(key, NB, first, count, rows) /\ Ascending(first, count)
\* chains: following next rows from a group's first row visits the group exactly
NextOf == [i \in 1..n |-> LET S == {j \in (i + 1)..n : key[j] = key[i]} IN
             IF key[i] < 0 \/ key[i] >= NB \/ S = {} THEN INV ELSE (CHOOSE j \in S : \A x \in S : j <= x) - 1]
Chained == Done => NextRows(key, NB, 0, NextOf)
=============================================================================
