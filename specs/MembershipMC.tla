---------------------------- MODULE MembershipMC ----------------------------
(* Design model of membership: build an open-addressing table from b (first occurrence kept), then several workers look up
   disjoint ranges of a concurrently.  For every hash function and interleaving the finished answer is the declarative one. *)
EXTENDS Membership
CONSTANTS MaxA, MaxB, Keys, Slots, Workers, Nan
VARIABLES a, b, hash, table, bi, probe, next, busy, found, idx
vars == <<a, b, hash, table, bi, probe, next, busy, found, idx>>
Idle == [row |-> 0, at |-> 0]
Init == /\ a \in UNION {[1..n -> Keys] : n \in 0..MaxA} /\ b \in UNION {[1..n -> Keys] : n \in 0..MaxB}
        /\ hash \in [Keys -> 0..(Slots - 1)]
        /\ table = [s \in 0..(Slots - 1) |-> 0] /\ bi = 1 /\ probe = -1
        /\ next = 1 /\ busy = [w \in Workers |-> Idle]
        /\ found = [i \in 1..Len(a) |-> 9] /\ idx = [i \in 1..Len(a) |-> 9]
Building == bi <= Len(b)
Insert == /\ Building
          /\ IF b[bi] = Nan THEN bi' = bi + 1 /\ UNCHANGED <<table, probe>>
             ELSE LET p == IF probe < 0 THEN hash[b[bi]] ELSE probe IN
                  IF table[p] = 0 THEN table' = [table EXCEPT ![p] = bi] /\ bi' = bi + 1 /\ probe' = -1
                  ELSE IF b[table[p]] = b[bi] THEN bi' = bi + 1 /\ probe' = -1 /\ UNCHANGED table
                  ELSE probe' = (p + 1) % Slots /\ UNCHANGED <<bi, table>>
          /\ UNCHANGED <<a, b, hash, next, busy, found, idx>>
Claim(w) == /\ ~Building /\ busy[w] = Idle /\ next <= Len(a)
            /\ busy' = [busy EXCEPT ![w] = [row |-> next, at |-> hash[a[next]]]]
            /\ next' = next + 1 /\ UNCHANGED <<a, b, hash, table, bi, probe, found, idx>>
Finish(w, f, x) == /\ found' = [found EXCEPT ![busy[w].row] = f] /\ idx' = [idx EXCEPT ![busy[w].row] = x]
                   /\ busy' = [busy EXCEPT ![w] = Idle] /\ UNCHANGED <<a, b, hash, table, bi, probe, next>>
Look(w) == /\ busy[w] # Idle
           /\ LET k == a[busy[w].row] s == busy[w].at IN
              IF k = Nan \/ table[s] = 0 THEN Finish(w, 0, INV)
              ELSE IF b[table[s]] = k THEN Finish(w, 1, table[s] - 1)
              ELSE /\ busy' = [busy EXCEPT ![w].at = (s + 1) % Slots]
                   /\ UNCHANGED <<a, b, hash, table, bi, probe, next, found, idx>>
Next == Insert \/ \E w \in Workers : Claim(w) \/ Look(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finished == ~Building /\ next > Len(a) /\ \A w \in Workers : busy[w] = Idle
Right == Finished => IsMemberAnswer(a, b, Nan, found, idx)
Ends == <>Finished
=============================================================================
