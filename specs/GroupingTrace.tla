--------------------------- MODULE GroupingTrace ---------------------------
(* Validates recorded calls of the grouping functions.  State: the keys already numbered by each open rolling hash. *)
EXTENDS Grouping, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, rolls     \* rolls: handle -> sequence of keys in the order they were numbered, with their running counts

RowsOf(a) == IF Len(a.cols) = 1 THEN a.cols[1]
             ELSE TLCEval([i \in 1..Len(a.cols[1]) |-> [c \in 1..Len(a.cols) |-> a.cols[c][i]]])

GroupBy(a, r) == IsGrouping(RowsOf(a), a.f, r.ikey, r.ifirst, r.n)

\* grouping partition by partition: each partition is grouped on its own; numbering restarts
Partitioned(a, r) ==
    LET rows == RowsOf(a)
        cut == a.cut
        lo(p) == IF p = 1 THEN 0 ELSE cut[p - 1]
        flo(p) == IF p = 1 THEN 0 ELSE r.fcut[p - 1]
    IN /\ Len(r.fcut) = Len(cut)
       /\ Len(r.ikey) = Len(rows)
       /\ NonDecreasing(r.fcut) /\ Len(r.ifirst) = r.fcut[Len(cut)]
       /\ r.n = r.fcut[Len(cut)]
       /\ \A p \in 1..Len(cut) :
            IsGrouping(SubSeq(rows, lo(p) + 1, cut[p]),
                       IF Len(a.f) = 0 THEN <<>> ELSE SubSeq(a.f, lo(p) + 1, cut[p]),
                       SubSeq(r.ikey, lo(p) + 1, cut[p]), SubSeq(r.ifirst, flo(p) + 1, r.fcut[p]), r.fcut[p] - flo(p))

Unique(a, r) ==
    LET rows == RowsOf(a)
        N == Len(rows)
        n == Len(r.ifirst)
        reps == {rows[r.ifirst[g] + 1] : g \in 1..n}
    IN /\ \A g \in 1..n : r.ifirst[g] \in 0..(N - 1) /\ Live(a.f, r.ifirst[g] + 1)
       /\ StrictlyIncreasing(r.ifirst) /\ Len(r.count) = n
       /\ Cardinality(reps) = n
       /\ \A i \in 1..N : Live(a.f, i) => rows[i] \in reps
       /\ \A g \in 1..n : \A i \in 1..r.ifirst[g] : Live(a.f, i) => rows[i] # rows[r.ifirst[g] + 1]
       /\ \A g \in 1..n : r.count[g] = Cardinality({i \in 1..N : Live(a.f, i) /\ rows[i] = rows[r.ifirst[g] + 1]})

\* many distinct keys: the event carries the grouping, which is checked first
UniqueBig(a, r) ==
    /\ IsGrouping(RowsOf(a), a.f, a.g.ikey, a.g.ifirst, Len(a.g.ifirst))
    /\ r.ifirst = a.g.ifirst
    /\ LET c == FoldLeftCount(a.g.ikey, Len(a.g.ifirst)) IN r.count = [g \in 1..Len(a.g.ifirst) |-> c[g]]

Hash(a, r) ==
    LET n == FoldIdx(LAMBDA m, i : MaxI(m, r.key[i]), 0, 1, Len(r.key))
        rows == RowsOf(a)
        firsts == Pos0(Len(r.key), LAMBDA i : r.nth[i] = 1)
    IN /\ Len(r.key) = Len(rows) /\ Len(r.nth) = Len(rows)
       /\ IsGrouping(rows, <<>>, r.key, firsts, n)
       /\ OccurrenceLinks(r.key, n, r.nth, r.size, r.prev, r.next, r.first, r.last)

\* the one-pass variant with counts; its chains visit each group's rows exactly once
Super(a, r) ==
    LET rows == RowsOf(a) n == Len(r.ifirst) IN
    /\ IsGrouping(rows, a.f, r.ikey, r.ifirst, n)
    /\ Len(r.count) = n
    /\ LET c == FoldLeftCount(r.ikey, n) IN \A g \in 1..n : r.count[g] = c[g]

\* a rolling hash: a batch continues the numbering and the running counts of the batches before it
RECURSIVE RollRows(_, _, _, _, _)
RollRows(s, rows, bins, runs, i) ==
    IF i > Len(rows) THEN [ok |-> TRUE, s |-> s]
    ELSE LET g == NumOf([num |-> s.num], rows[i])
             s2 == IF g = 0 THEN [num |-> Append(s.num, rows[i]), cnt |-> Append(s.cnt, 1)]
                   ELSE [s EXCEPT !.cnt[g] = @ + 1]
             gg == IF g = 0 THEN Len(s2.num) ELSE g
         IN IF bins[i] = gg - 1 /\ runs[i] = s2.cnt[gg] THEN RollRows(s2, rows, bins, runs, i + 1) ELSE [ok |-> FALSE, s |-> s2]

Fresh == [num |-> <<>>, cnt |-> <<>>]
RollStep(a, r) ==
    LET s == IF a.id \in DOMAIN rolls THEN rolls[a.id] ELSE Fresh
        t == RollRows(s, RowsOf(a), r.bin, r.run, 1)
    IN [ok |-> Len(r.bin) = Len(a.cols[1]) /\ Len(r.run) = Len(r.bin) /\ t.ok /\ r.n = Len(t.s.num), s |-> t.s]

Explains(e) ==
    IF e.st # "ok" THEN FALSE ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "groupby" -> GroupBy(e.a, e.r)
      [] e.op = "partitioned" -> Partitioned(e.a, e.r)
      [] e.op = "unique" -> Unique(e.a, e.r)
      [] e.op = "uniquebig" -> UniqueBig(e.a, e.r)
      [] e.op = "hash" -> Hash(e.a, e.r)
      [] e.op = "super" -> Super(e.a, e.r)
      [] e.op = "rolldel" -> TRUE
      [] OTHER -> FALSE

Init == l = 1 /\ rolls = << >>
Next ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.op = "roll" /\ e.st = "ok"
       THEN LET x == RollStep(e.a, e.r) IN
            /\ rolls' = (e.a.id :> x.s) @@ rolls
            /\ IF x.ok THEN TRUE ELSE PrintT(<<"REJECT", l>>)
       ELSE /\ rolls' = (IF e.op = "rolldel" THEN [h \in DOMAIN rolls \ {e.a.id} |-> rolls[h]] ELSE rolls)
            /\ IF Explains(e) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
