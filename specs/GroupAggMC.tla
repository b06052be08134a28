----------------------------- MODULE GroupAggMC -----------------------------
(* Design model of the scattered aggregation: rows are cut in blocks, workers claim blocks in any order and add each to
   their private accumulators (count -1 = spoiled by an invalid value), then the accumulators are gathered bin by bin.
   For every input and schedule the gathered answer is the definition. *)
EXTENDS GroupAgg
CONSTANTS Rows, BlockLen, Workers, Vals, NBins, Fns
VARIABLES x, g, fn, next, busy, acc, done, out
vars == <<x, g, fn, next, busy, acc, done, out>>
NBlocks == (Rows + BlockLen - 1) \div BlockLen
NoAcc == [used |-> FALSE, val |-> [b \in 0..(NBins - 1) |-> 0], cnt |-> [b \in 0..(NBins - 1) |-> 0]]
Nan == fn >= 50
K == fn % 50
Init == /\ x \in [1..Rows -> Vals] /\ g \in [1..Rows -> 0..(NBins - 1)] /\ fn \in Fns
        /\ next = 0 /\ busy = [w \in Workers |-> -1] /\ acc = [w \in Workers |-> NoAcc]
        /\ done = 0 /\ out = <<>>
Claim(w) == /\ busy[w] = -1 /\ next < NBlocks /\ busy' = [busy EXCEPT ![w] = next] /\ next' = next + 1
            /\ UNCHANGED <<x, g, fn, acc, done, out>>
\* one row into an accumulator; min and max start from the first valid value, as cnt says
Step(a, i) ==
    LET b == g[i] v == x[i] IN
    IF a.cnt[b] < 0 THEN a
    ELSE IF v = INV THEN (IF Nan THEN a ELSE [a EXCEPT !.val[b] = INV, !.cnt[b] = -1])
    ELSE [a EXCEPT !.cnt[b] = @ + 1,
                   !.val[b] = CASE K \in {0, 1} -> @ + v
                                [] K = 2 -> IF a.cnt[b] = 0 THEN v ELSE MinI(@, v)
                                [] OTHER -> IF a.cnt[b] = 0 THEN v ELSE MaxI(@, v)]
Work(w) == /\ busy[w] >= 0
           /\ LET lo == busy[w] * BlockLen + 1 hi == MinI((busy[w] + 1) * BlockLen, Rows) IN
              acc' = [acc EXCEPT ![w] = FoldIdx(LAMBDA a, i : Step(a, i), [@ EXCEPT !.used = TRUE], lo, hi)]
           /\ busy' = [busy EXCEPT ![w] = -1] /\ done' = done + 1
           /\ UNCHANGED <<x, g, fn, next, out>>
Merge(m, a, b) ==
    IF ~a.used \/ m.cnt < 0 THEN m
    ELSE IF a.cnt[b] < 0 THEN [val |-> INV, cnt |-> -1]
    ELSE IF a.cnt[b] = 0 THEN m
    ELSE [cnt |-> m.cnt + a.cnt[b],
          val |-> CASE K \in {0, 1} -> m.val + a.val[b]
                    [] K = 2 -> IF m.cnt = 0 THEN a.val[b] ELSE MinI(m.val, a.val[b])
                    [] OTHER -> IF m.cnt = 0 THEN a.val[b] ELSE MaxI(m.val, a.val[b])]
RECURSIVE MergeAll(_, _, _)
MergeAll(m, ws, b) == IF ws = {} THEN m ELSE LET w == CHOOSE w \in ws : TRUE IN MergeAll(Merge(m, acc[w], b), ws \ {w}, b)
Gather == /\ done = NBlocks /\ out = <<>>
          /\ out' = [b1 \in 1..NBins |->
                       LET m == MergeAll([val |-> 0, cnt |-> 0], Workers, b1 - 1) IN
                       IF m.cnt < 0 THEN INV
                       ELSE IF K = 0 THEN m.val
                       ELSE IF m.cnt = 0 THEN INV
                       ELSE IF K = 1 THEN (60 * m.val) \div m.cnt ELSE m.val]
          /\ UNCHANGED <<x, g, fn, next, busy, acc, done>>
Next == Gather \/ \E w \in Workers : Claim(w) \/ Work(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
RowsIn(b) == SelectSeq([i \in 1..Rows |-> i], LAMBDA i : g[i] = b)
Right == out # <<>> => \A b \in 0..(NBins - 1) :
            LET rs == RowsIn(b) IN Is(fn, StatsOf(LAMBDA i : x[rs[i]], 1, Len(rs), FALSE), 60, FALSE, out[b + 1])
Ends == <>(out # <<>>)
=============================================================================
