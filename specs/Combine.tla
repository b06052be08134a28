------------------------------ MODULE Combine ------------------------------
(* Group keys: row i belongs to group key[i], 0 is the group of excluded rows.  Row numbers in results count from 0. *)
EXTENDS Codes
LOCAL INSTANCE Sequences

Keeps(f, i) == Len(f) = 0 \/ f[i] = 1
IsFilter(key, f) == Len(f) \in {0, Len(key)}

\* excluding rows from a key
Filtered(key, f, r) == Len(r) = Len(key) /\ \A i \in 1..Len(key) : r[i] = IF Keeps(f, i) THEN key[i] ELSE 0

\* two keys as one: the pair identifies the group, the pair (0, 0) is excluded
Paired(k1, k2, f, r1, r2) ==
    /\ Len(k2) = Len(k1) /\ Len(r1) = Len(k1) /\ Len(r2) = Len(k1)
    /\ \A i \in 1..Len(k1) : IF Keeps(f, i) THEN r1[i] = k1[i] /\ r2[i] = k2[i] ELSE r1[i] = 0 /\ r2[i] = 0

(* A key without its unused groups.  parts: what defines the group of a row (a sequence of keys); a row is in it when its filter
   holds and used(i).  Certificate form, linear in the rows: every row agrees with the first row of its group, the first rows are
   in order, and no two groups have the same parts. *)
Renumbered(parts, n, Used(_), r, first) ==
    /\ Len(r) = n
    /\ \A g \in 1..Len(first) : first[g] \in 0..(n - 1) /\ r[first[g] + 1] = g /\ (g > 1 => first[g - 1] < first[g])
    /\ \A i \in 1..n :
         IF Used(i)
         THEN /\ r[i] \in 1..Len(first) /\ first[r[i]] < i
              /\ \A p \in 1..Len(parts) : parts[p][i] = parts[p][first[r[i]] + 1]
         ELSE r[i] = 0
    /\ Cardinality({[p \in 1..Len(parts) |-> parts[p][first[g] + 1]] : g \in 1..Len(first)}) = Len(first)
Compacted(key, m, f, r, first) == Renumbered(<<key>>, Len(key), LAMBDA i : Keeps(f, i) /\ key[i] \in 1..m, r, first)
Chained(parts, n, f, r, first) == Renumbered(parts, n, LAMBDA i : Keeps(f, i) /\ \E p \in 1..Len(parts) : parts[p][i] # 0, r, first)

\* first (or last) row of every group, INV for a group without rows; nothing is told about the excluded group
\* linear: the row named belongs to the group, and every row of a group has a named row not after (before) it
Ends(key, m, f, last, r) ==
    /\ Len(r) = m + 1 /\ r[1] = INV
    /\ \A g \in 1..m : r[g + 1] = INV \/ (r[g + 1] \in 0..(Len(key) - 1) /\ key[r[g + 1] + 1] = g /\ Keeps(f, r[g + 1] + 1))
    /\ \A i \in 1..Len(key) : Keeps(f, i) /\ key[i] \in 1..m =>
         LET e == r[key[i] + 1] IN e # INV /\ (IF last = 1 THEN e >= i - 1 ELSE e <= i - 1)

(* membership of one key's rows in another's: on[u] = the group of b (from 0) with the same label as group u of a, INV for none *)
FirstRow(b, base, m) == [t \in 0..(m - 1) |-> LET s == {j \in 1..Len(b) : b[j] = t + base} IN IF s = {} THEN INV ELSE (CHOOSE j \in s : \A k \in s : j <= k) - 1]
Matched(a, base1, on, b, base2, m, member, index) ==
    LET fr == FirstRow(b, base2, m) IN
    /\ Len(member) = Len(a) /\ Len(index) = Len(a)
    /\ \A i \in 1..Len(a) :
         LET e == IF a[i] < base1 \/ a[i] = INV THEN INV ELSE IF on[a[i] - base1 + 1] = INV THEN INV ELSE fr[on[a[i] - base1 + 1]] IN
         index[i] = e /\ member[i] = (IF e = INV THEN 0 ELSE 1)
=============================================================================
