------------------------------ MODULE Packing ------------------------------
EXTENDS Codes
(* A packing lists the rows group by group. key[i] is the group of row i (rows and groups count from 0; groups outside
   0..nb-1 take no part). All operators walk each sequence once, so they serve long tables too. *)
InRange(key, nb) == Count(key, LAMBDA x : x >= 0 /\ x < nb)

(* first[b], count[b] delimit group b's rows in rows; rows of a group ascend; every row of a group 0..nb-1 is there once *)
Slices(key, nb, first, count, rows) ==
    /\ Len(first) = nb /\ Len(count) = nb
    /\ SumSeq(count) = InRange(key, nb)
    /\ \A b \in 1..nb : count[b] >= 0 /\
         (count[b] = 0 \/ ( /\ first[b] >= 0 /\ first[b] + count[b] <= Len(rows)
                            /\ \A p \in (first[b] + 1)..(first[b] + count[b]) :
                                 /\ rows[p] \in 0..(Len(key) - 1)
                                 /\ key[rows[p] + 1] = b - 1
                                 /\ (p > first[b] + 1 => rows[p] > rows[p - 1])))
(* slices in ascending group order without gaps *)
Ascending(first, count) == \A b \in 1..Len(first) : first[b] = IF b = 1 THEN 0 ELSE first[b - 1] + count[b - 1]
(* slices with no overlap: they are nonempty, disjoint by content already (each row has one group), so it suffices that
   they fill 0..n-1, with the order given: groups 1.. ascending, group 0 at the front or at the end *)
ZeroPlaced(key, first, count) ==
    LET nb == Len(first)
        front == Len(key) > 0 /\ key[1] = 0
        start == IF front THEN count[1] ELSE 0
    IN /\ \A b \in 2..nb : count[b] > 0 => first[b] = IF b = 2 THEN start ELSE first[b - 1] + count[b - 1]
       /\ count[1] > 0 => first[1] = IF front THEN 0 ELSE SumSeq(count) - count[1]

(* nx[i]: the next (previous, when back = 1) row of row i's group, INV if there is none or row i has no group *)
NextRows(key, nb, back, nx) ==
    LET n == Len(key)
        in(i) == key[i] >= 0 /\ key[i] < nb
        linked == {i \in 1..n : nx[i] # INV}
        ends == {i \in 1..n : nx[i] = INV /\ in(i)}
    IN /\ Len(nx) = n
       /\ \A i \in linked : in(i) /\ nx[i] \in 0..(n - 1) /\ key[nx[i] + 1] = key[i]
                            /\ (IF back = 1 THEN nx[i] + 1 < i ELSE nx[i] + 1 > i)
       /\ Cardinality({nx[i] : i \in linked}) = Cardinality(linked)
       /\ Cardinality({key[i] : i \in 1..n} \cap (0..(nb - 1))) = Cardinality(ends)

(* Groups of a sorted order: val are the values' codes, order lists row numbers so that equal values are adjacent;
   key (per position of order) is numbered from base, first is the row at which a group starts, count starts with an
   empty group 0 *)
LexGroups(val, order, base, key, first, count) ==
    LET n == Len(order)
        new(p) == IF p = 1 THEN TRUE ELSE val[order[p] + 1] # val[order[p - 1] + 1]
        starts == SelectSeq([p \in 1..n |-> p], LAMBDA p : new(p))
        u == Len(starts)
    IN /\ Len(key) = n /\ Len(first) = u /\ Len(count) = u + 1
       /\ count[1] = 0
       /\ \A g \in 1..u :
            LET hi == IF g = u THEN n ELSE starts[g + 1] - 1 IN
            /\ first[g] = order[starts[g]]
            /\ count[g + 1] = hi - starts[g] + 1
            /\ \A p \in starts[g]..hi : key[p] = g - 1 + base
(* The same per partition: cuts are the partitions' ends and order counts rows from its partition's start. The result
   numbers groups from 1 through all partitions, counts groups up to each partition's end, and moves order (after) to
   count from the first row. keys[i] is the group of row i. *)
LexPartitions(val, order, cuts, keys, first, count, uniq, after) ==
    LET n == Len(order)
        lo(t) == IF t = 1 THEN 0 ELSE cuts[t - 1]
        ub(t) == IF t = 1 THEN 0 ELSE uniq[t - 1]
    IN /\ Len(uniq) = Len(cuts) /\ Len(after) = n /\ Len(keys) = n
       /\ Len(count) = (IF Len(uniq) = 0 THEN 0 ELSE uniq[Len(uniq)]) + 1
       /\ Len(first) = Len(count) - 1
       /\ \A t \in 1..Len(cuts) :
            LET abs == [p \in 1..(cuts[t] - lo(t)) |-> order[lo(t) + p] + lo(t)]
            IN /\ uniq[t] >= ub(t) /\ uniq[t] <= Len(first)
               /\ \A p \in 1..Len(abs) : after[lo(t) + p] = abs[p]
               /\ LexGroups(val, abs, ub(t) + 1, [p \in 1..Len(abs) |-> keys[abs[p] + 1]],
                            SubSeq(first, ub(t) + 1, uniq[t]), <<0>> \o SubSeq(count, ub(t) + 2, uniq[t] + 1))
       /\ count[1] = 0
=============================================================================
