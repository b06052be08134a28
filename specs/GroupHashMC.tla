---------------------------- MODULE GroupHashMC ----------------------------
(* Design model of the open-addressing hash used for grouping: rows are inserted one at a time; the hash function is chosen
   arbitrarily (so every collision pattern occurs), probing is linear with wrap-around, and a slot holds a group number.
   Invariant: whatever the hash function, the partial result is always THE grouping of the rows scanned so far. *)
EXTENDS Grouping
CONSTANTS MaxRows, Keys, Slots
VARIABLES rows, filt, hash, table, i, ikey, ifirst, probe
vars == <<rows, filt, hash, table, i, ikey, ifirst, probe>>

Init == /\ rows \in UNION {[1..n -> Keys] : n \in 0..MaxRows}
        /\ filt \in {<<>>} \cup [1..Len(rows) -> {0, 1}]
        /\ hash \in [Keys -> 0..(Slots - 1)]
        /\ table = [s \in 0..(Slots - 1) |-> 0]
        /\ i = 1 /\ ikey = <<>> /\ ifirst = <<>> /\ probe = -1

Skip == /\ i <= Len(rows) /\ ~Live(filt, i)
        /\ ikey' = Append(ikey, 0) /\ i' = i + 1
        /\ UNCHANGED <<rows, filt, hash, table, ifirst, probe>>
Start == /\ i <= Len(rows) /\ Live(filt, i) /\ probe = -1
         /\ probe' = hash[rows[i]]
         /\ UNCHANGED <<rows, filt, hash, table, i, ikey, ifirst>>
Hit == /\ probe >= 0 /\ table[probe] # 0 /\ rows[ifirst[table[probe]] + 1] = rows[i]
       /\ ikey' = Append(ikey, table[probe]) /\ i' = i + 1 /\ probe' = -1
       /\ UNCHANGED <<rows, filt, hash, table, ifirst>>
Collide == /\ probe >= 0 /\ table[probe] # 0 /\ rows[ifirst[table[probe]] + 1] # rows[i]
           /\ probe' = (probe + 1) % Slots
           /\ UNCHANGED <<rows, filt, hash, table, i, ikey, ifirst>>
Claim == /\ probe >= 0 /\ table[probe] = 0
         /\ ifirst' = Append(ifirst, i - 1) /\ table' = [table EXCEPT ![probe] = Len(ifirst) + 1]
         /\ ikey' = Append(ikey, Len(ifirst) + 1) /\ i' = i + 1 /\ probe' = -1
         /\ UNCHANGED <<rows, filt, hash>>
Next == Skip \/ Start \/ Hit \/ Collide \/ Claim
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Scanned == IsGrouping(SubSeq(rows, 1, i - 1), IF filt = <<>> THEN <<>> ELSE SubSeq(filt, 1, i - 1), ikey, ifirst, Len(ifirst))
\* the operational scan of Grouping.tla gives the same answer
RECURSIVE ScanAll(_, _)
ScanAll(s, j) == IF j >= i THEN s ELSE ScanAll(ScanRow(s, rows[j], Live(filt, j), j), j + 1)
SameAsScan == LET s == ScanAll(EmptyScan, 1) IN s.ikey = ikey /\ s.ifirst = ifirst
Done == <>(i = Len(rows) + 1)
=============================================================================
