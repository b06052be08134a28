------------------------------ MODULE TakeMC ------------------------------
(* Design of selection by mask in parallel: every chunk is counted, the counts become offsets, every chunk is copied to its
   offset.  Any interleaving of the chunks (element by element) ends with exactly the selected rows in order. *)
EXTENDS Take
CONSTANTS N, Chunk
VARIABLES m, count, done, pos, outp, out
vars == <<m, count, done, pos, outp, out>>
Chunks == (N + Chunk - 1) \div Chunk
First(c) == (c - 1) * Chunk + 1
Last(c) == MinI(c * Chunk, N)
InChunk(c, i) == i >= First(c) /\ i <= Last(c)
Ones(c) == Cardinality({i \in First(c)..Last(c) : m[i] = 1})
Offset(c) == FoldIdx(LAMBDA s, d : s + count[d], 0, 1, c - 1)
Init == /\ m \in [1..N -> {0, 1}]
        /\ count = [c \in 1..Chunks |-> -1] /\ done = {}
        /\ pos = [c \in 1..Chunks |-> 0] /\ outp = [c \in 1..Chunks |-> 0] /\ out = [i \in 1..N |-> 0]
CountChunk(c) == /\ count[c] = -1 /\ count' = [count EXCEPT ![c] = Ones(c)]
                 /\ UNCHANGED <<m, done, pos, outp, out>>
Counted == \A c \in 1..Chunks : count[c] # -1
Step(c) == /\ Counted /\ c \notin done /\ First(c) + pos[c] <= Last(c)
           /\ LET i == First(c) + pos[c] IN
              IF m[i] = 1
              THEN /\ out' = [out EXCEPT ![Offset(c) + outp[c] + 1] = i] /\ outp' = [outp EXCEPT ![c] = @ + 1]
              ELSE UNCHANGED <<out, outp>>
           /\ pos' = [pos EXCEPT ![c] = @ + 1]
           /\ UNCHANGED <<m, count, done>>
Finish(c) == /\ Counted /\ c \notin done /\ First(c) + pos[c] > Last(c) /\ done' = done \cup {c}
             /\ UNCHANGED <<m, count, pos, outp, out>>
Next == \E c \in 1..Chunks : CountChunk(c) \/ Step(c) \/ Finish(c)
Spec == Init /\ [][Next]_vars
Cum == [i \in 1..N |-> Cardinality({j \in 1..i : m[j] = 1})]
Correct == done = 1..Chunks =>
    MaskTake([i \in 1..N |-> i], m, Cum, SubSeq(out, 1, Total(Cum)))
\* no two chunks ever write the same place
NoClash == Counted => \A c \in 1..Chunks : \A d \in 1..Chunks : c < d => Offset(c) + outp[c] <= Offset(d)
=============================================================================
