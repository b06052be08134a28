------------------------------ MODULE SortingMC ------------------------------
(* Design model of the parallel stable index sort: four blocks are sorted by any workers; whoever completes the second of two buddies
   (an atomic or on the level's bits tells) merges the pair, and likewise the halves. For every input and schedule the result is the
   stable sort and exactly one worker performs each merge. Merging takes the left row on ties. *)
EXTENDS Sorting
CONSTANTS MaxN, Vals, Workers
VARIABLES x, idx, next, lvl1, lvl2, pc, done
vars == <<x, idx, next, lvl1, lvl2, pc, done>>
Init == /\ x \in UNION {[1..n -> Vals] : n \in 1..MaxN} /\ idx = [i \in 1..Len(x) |-> i - 1] /\ next = 0
        /\ lvl1 = {} /\ lvl2 = {} /\ pc = [w \in Workers |-> <<"idle", 0>>] /\ done = 0
N == Len(x)
End(b) == CASE b = 0 -> N \div 4 [] b = 1 -> N \div 2 [] b = 2 -> N \div 2 + (N - N \div 2) \div 2 [] b = 3 -> N
From(b) == IF b = 0 THEN 0 ELSE End(b - 1)
RECURSIVE Merged(_, _)
Merged(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
    ELSE IF Cmp(x[b[1] + 1], x[a[1] + 1], TRUE) < 0 THEN <<b[1]>> \o Merged(a, Tail(b)) ELSE <<a[1]>> \o Merged(Tail(a), b)
RECURSIVE SortSeqM(_)
SortSeqM(s) == IF Len(s) < 2 THEN s ELSE LET h == Len(s) \div 2 IN Merged(SortSeqM(SubSeq(s, 1, h)), SortSeqM(SubSeq(s, h + 1, Len(s))))
Put(lo, hi, s) == [i \in 1..N |-> IF i > lo /\ i <= hi THEN s[i - lo] ELSE idx[i]]
Claim(w) == /\ pc[w][1] = "idle" /\ next < 4 /\ next' = next + 1 /\ pc' = [pc EXCEPT ![w] = <<"leaf", next>>] /\ UNCHANGED <<x, idx, lvl1, lvl2, done>>
Leaf(w) == /\ pc[w][1] = "leaf"
           /\ LET b == pc[w][2] IN /\ idx' = Put(From(b), End(b), SortSeqM(SubSeq(idx, From(b) + 1, End(b))))
                                   /\ pc' = [pc EXCEPT ![w] = <<"or1", b>>]
           /\ UNCHANGED <<x, next, lvl1, lvl2, done>>
Buddy(b) == IF b % 2 = 1 THEN b - 1 ELSE b + 1
Or1(w) == /\ pc[w][1] = "or1"
          /\ LET b == pc[w][2] IN /\ lvl1' = lvl1 \cup {b}
                                  /\ pc' = [pc EXCEPT ![w] = IF Buddy(b) \in lvl1 THEN <<"pair", b \div 2>> ELSE <<"idle", 0>>]
          /\ UNCHANGED <<x, idx, next, lvl2, done>>
Pair(w) == /\ pc[w][1] = "pair"
           /\ LET p == pc[w][2] lo == From(2 * p) m == End(2 * p) hi == End(2 * p + 1) IN
              /\ idx' = Put(lo, hi, Merged(SubSeq(idx, lo + 1, m), SubSeq(idx, m + 1, hi))) /\ pc' = [pc EXCEPT ![w] = <<"or2", p>>]
           /\ UNCHANGED <<x, next, lvl1, lvl2, done>>
Or2(w) == /\ pc[w][1] = "or2"
          /\ LET p == pc[w][2] IN /\ lvl2' = lvl2 \cup {p}
                                  /\ pc' = [pc EXCEPT ![w] = IF Buddy(p) \in lvl2 THEN <<"final", 0>> ELSE <<"idle", 0>>]
          /\ UNCHANGED <<x, idx, next, lvl1, done>>
Final(w) == /\ pc[w][1] = "final" /\ idx' = Merged(SubSeq(idx, 1, N \div 2), SubSeq(idx, N \div 2 + 1, N)) /\ done' = done + 1
            /\ pc' = [pc EXCEPT ![w] = <<"idle", 0>>] /\ UNCHANGED <<x, next, lvl1, lvl2>>
Next == \E w \in Workers : Claim(w) \/ Leaf(w) \/ Or1(w) \/ Pair(w) \/ Or2(w) \/ Final(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == (done > 0 => done = 1 /\ LexAnswer(<<x>>, <<TRUE>>, <<N>>, idx))
Ends == <>(done = 1 /\ \A w \in Workers : pc[w][1] = "idle")
\* laws of the order
R == 0..2 \cup {INV}
ASSUME \A a, b, c \in R, s \in BOOLEAN : /\ Cmp(a, b, s) = -Cmp(b, a, s) /\ (Cmp(a, b, s) <= 0 /\ Cmp(b, c, s) <= 0 => Cmp(a, c, s) <= 0)
=============================================================================
