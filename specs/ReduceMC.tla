------------------------------ MODULE ReduceMC ------------------------------
(* Design model of a parallel reduction: the array is cut into chunks, workers claim chunks in order and fold each into their own partial
   result, and the submitter gathers the partial results of the workers that took part. For every array and schedule the gathered
   result is the declarative one: partial positions must be compared, because a worker's best may lie after another worker's equal best. *)
EXTENDS Reduce
CONSTANTS MaxN, Vals, Workers, Chunk
VARIABLES x, next, part, busy, f, res
vars == <<x, next, part, busy, f, res>>
None == [s |-> Empty, at |-> -1, bad |-> -1]
Init == /\ x \in UNION {[1..n -> Vals] : n \in 1..MaxN} /\ next = 0 /\ part = [w \in Workers |-> None] /\ busy = [w \in Workers |-> -1]
        /\ f \in {"argmin", "nanargmin", "min", "nanmin", "sum", "nansum"} /\ res = None
Chunks == (Len(x) + Chunk - 1) \div Chunk
Claim(w) == /\ busy[w] < 0 /\ next < Chunks /\ busy' = [busy EXCEPT ![w] = next] /\ next' = next + 1 /\ UNCHANGED <<x, part, f, res>>
Better(v, at, p) == \/ p.s.n = 0 \/ v < p.s.mn \/ (v = p.s.mn /\ at < p.at)
FoldRow(p, i) == [s |-> Add(p.s, x[i], FALSE),
                  at |-> IF x[i] # INV /\ Better(x[i], i - 1, p) THEN i - 1 ELSE p.at,
                  bad |-> IF x[i] = INV /\ (p.bad < 0 \/ i - 1 < p.bad) THEN i - 1 ELSE p.bad]
Work(w) == /\ busy[w] >= 0
           /\ part' = [part EXCEPT ![w] = FoldIdx(FoldRow, part[w], busy[w] * Chunk + 1, MinI(Len(x), (busy[w] + 1) * Chunk))]
           /\ busy' = [busy EXCEPT ![w] = -1] /\ UNCHANGED <<x, next, f, res>>
Merge(p, q) == IF q.s.all = 0 THEN p ELSE
    [s |-> [p.s EXCEPT !.n = @ + q.s.n, !.all = @ + q.s.all, !.sum = @ + q.s.sum,
                       !.mn = IF q.s.n = 0 THEN @ ELSE IF p.s.n = 0 THEN q.s.mn ELSE MinI(@, q.s.mn)],
     at |-> IF q.s.n > 0 /\ Better(q.s.mn, q.at, p) THEN q.at ELSE p.at,
     bad |-> IF p.bad < 0 THEN q.bad ELSE IF q.bad < 0 THEN p.bad ELSE MinI(p.bad, q.bad)]
Idle == next = Chunks /\ \A w \in Workers : busy[w] < 0
Gather == /\ Idle /\ res = None /\ res' = FoldLeftSet(LAMBDA p, w : Merge(p, part[w]), None, Workers) /\ UNCHANGED <<x, next, part, busy, f>>
Next == Gather \/ \E w \in Workers : Claim(w) \/ Work(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Answer == LET nan == Skips(f) b == Base(f) IN
    IF b = "argmin" THEN IF Bad(res.s, nan) THEN [t |-> "num", v |-> res.bad] ELSE IF res.s.n = 0 THEN [t |-> "raise"] ELSE [t |-> "num", v |-> res.at]
    ELSE IF Bad(res.s, nan) THEN [t |-> "num", v |-> INV]
    ELSE [t |-> "num", v |-> IF b = "sum" THEN res.s.sum ELSE res.s.mn]
Right == res # None => ReduceAnswer(f, x, 0, 1, Answer)
Ends == <>(res # None)
=============================================================================
