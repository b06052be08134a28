----------------------------- MODULE CombineMC -----------------------------
(* Design: two keys become one number k2*(m+1)+k1, whose used values are renumbered by a table in one scan; the table also gives the
   first rows.  For every pair of keys and every filter the result is the grouping of the rows by the pair, numbered by first
   appearance - stated directly, so that the linear form of Combine.tla is checked against the definition as well. *)
EXTENDS Combine, Sequences
CONSTANTS N, M
VARIABLES k1, k2, f, i, hash, key, first
vars == <<k1, k2, f, i, hash, key, first>>
Keys == [1..N -> 0..M]
Init == /\ k1 \in Keys /\ k2 \in Keys /\ f \in [1..N -> {0, 1}] /\ i = 1
        /\ hash = [b \in 0..((M + 1) * (M + 1) - 1) |-> 0] /\ key = <<>> /\ first = <<>>
Bin(j) == IF Keeps(f, j) THEN k2[j] * (M + 1) + k1[j] ELSE 0
Next == /\ i <= N /\ i' = i + 1 /\ UNCHANGED <<k1, k2, f>>
        /\ IF Bin(i) = 0 THEN key' = Append(key, 0) /\ UNCHANGED <<hash, first>>
           ELSE IF hash[Bin(i)] = 0
           THEN /\ first' = Append(first, i - 1) /\ hash' = [hash EXCEPT ![Bin(i)] = Len(first) + 1] /\ key' = Append(key, Len(first) + 1)
           ELSE key' = Append(key, hash[Bin(i)]) /\ UNCHANGED <<hash, first>>
Spec == Init /\ [][Next]_vars
Done == i > N
In(j) == Keeps(f, j) /\ (k1[j] # 0 \/ k2[j] # 0)
Same(a, b) == k1[a] = k1[b] /\ k2[a] = k2[b]
\* the definition
Heads == {j \in 1..N : In(j) /\ ~\E h \in 1..(j - 1) : In(h) /\ Same(h, j)}
Number(j) == LET h == CHOOSE h \in Heads : Same(h, j) IN Cardinality({g \in Heads : g <= h})
Def == [j \in 1..N |-> IF In(j) THEN Number(j) ELSE 0]
Partition == Done => key = Def /\ {first[g] + 1 : g \in 1..Len(first)} = Heads
Linear == Done => Chained(<<k1, k2>>, N, f, key, first)
\* the linear form accepts nothing else: any other numbering of two rows is rejected
Sharp == Done => \A j \in 1..N : \A v \in 0..M : v # key[j] => ~Chained(<<k1, k2>>, N, f, [key EXCEPT ![j] = v], first)
=============================================================================
