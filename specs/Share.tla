------------------------------- MODULE Share -------------------------------
(* Datasets in shared memory next to SDS files.  st.fs: files as in Sds.tla, of one section at most; st.was: what a file last held
   before it was damaged (its outline may still be readable); st.sh[s][f]: what is shared
   under name s for file f (<<>>: nothing, or one section); st.held: the sections this process loaded and still holds, in the
   order loaded (<<>>: dropped). *)
EXTENDS Sds
LOCAL INSTANCE Sequences
LongestName == 255
Section(op) == [meta |-> op.meta, items |-> op.items]
\* what a load under a shared name finds: what is shared, or else the file
Found(st, op) == IF st.sh[op.s][op.f] # <<>> THEN st.sh[op.s][op.f] ELSE st.fs[op.f]
Holds(st, sec) == [st EXCEPT !.held = Append(@, sec)]

Effect2(st, op, r) ==
    CASE op.op = "write" -> [st EXCEPT !.fs[op.f] = <<Section(op)>>, !.was[op.f] = <<Section(op)>>]
      [] op.op = "damage" -> [st EXCEPT !.fs[op.f] = <<>>]
      [] op.op = "share" -> [st EXCEPT !.sh[op.s][op.f] = IF op.name <= LongestName /\ op.room = 1 THEN <<Section(op)>> ELSE IF op.name <= LongestName THEN <<>> ELSE @]
      [] op.op = "unlink" -> [st EXCEPT !.sh[op.s][op.f] = <<>>]
      \* the saver was killed at some moment; the load that follows tells how far it had come
      [] op.op = "kill" -> LET s2 == [st EXCEPT !.sh[op.s][op.f] = IF r.st = "ok" THEN <<r.r>> ELSE <<>>] IN IF r.st = "ok" THEN Holds(s2, <<r.r>>) ELSE s2
      \* a load through shared memory leaves the file's contents there
      [] op.op = "sload" -> LET x == Found(st, op) s2 == [st EXCEPT !.sh[op.s][op.f] = x] IN IF x = <<>> \/ op.by = 1 THEN s2 ELSE Holds(s2, x)
      [] op.op = "load" -> IF st.fs[op.f] = <<>> THEN st ELSE Holds(st, st.fs[op.f])
      [] op.op = "drop" -> [st EXCEPT !.held[op.k] = <<>>]
      [] OTHER -> st

Outline1(s) == Outline(<<s>>)[1]
Got(r, x) == IF x = <<>> THEN r.st # "ok" ELSE r.st = "ok" /\ r.r = x[1]
Result2(st, op, r) ==
    CASE op.op \in {"write", "damage", "unlink"} -> r.st = "ok"
      [] op.op = "share" -> IF op.name <= LongestName /\ op.room = 1 THEN r.st = "ok" ELSE r.st # "ok"
      [] op.op = "kill" -> r.st # "ok" \/ r.r = Section(op) \/ (st.sh[op.s][op.f] # <<>> /\ r.r = st.sh[op.s][op.f][1])
      \* what lies in shared memory cannot be written to
      [] op.op = "sload" -> Got(r, Found(st, op)) /\ (r.st = "ok" => r.w = 0)
      [] op.op = "sinfo" -> LET x == Found(st, op) IN IF x # <<>> THEN r.st = "ok" /\ r.r = Outline1(x[1])
                           ELSE IF st.was[op.f] = <<>> THEN r.st # "ok" ELSE r.st # "ok" \/ r.r = Outline1(st.was[op.f][1])
      [] op.op = "load" -> Got(r, st.fs[op.f])
      [] op.op = "drop" -> r.st = "ok"
      \* all that is still held reads as it was loaded
      [] op.op = "held" -> r.st = "ok" /\ r.r = st.held
      [] OTHER -> FALSE
RECURSIVE Explained2(_, _, _, _)
Explained2(st, ops, rs, k) ==
    IF k > Len(ops) THEN TRUE
    ELSE (IF Result2(st, ops[k], rs[k]) THEN TRUE ELSE PrintT(<<"OP", k, ops[k].op>>) /\ FALSE) /\ Explained2(TLCEval(Effect2(st, ops[k], rs[k])), ops, rs, k + 1)
Start(nf, ns) == [fs |-> [f \in 1..nf |-> <<>>], was |-> [f \in 1..nf |-> <<>>], sh |-> [s \in 1..ns |-> [f \in 1..nf |-> <<>>]], held |-> <<>>]
Shared(a, r) == /\ Len(r.rs) = Len(a.ops) /\ Explained2(Start(a.nf, a.ns), a.ops, r.rs, 1)
                \* nothing stays open or mapped for what was dropped
                /\ r.fds = 0 /\ r.maps = 0

(* One process saves versions 1, 2, ... while another loads: every load that succeeds gives one whole version, never an older one
   than before. seen: of each load its metadata's version and the least and greatest version among its values *)
Whole2(a, r) == /\ \A i \in 1..Len(r.seen) : LET x == r.seen[i] IN x.lo = x.meta /\ x.hi = x.meta /\ x.n = a.items /\ x.meta \in 1..a.versions
                /\ \A i \in 1..Len(r.seen) - 1 : r.seen[i].meta <= r.seen[i + 1].meta
                /\ r.last = a.versions
\* several threads save, load and copy files, each its own: each gets its own
Apart(a, r) == \A t \in 1..Len(a.want) : \A i \in 1..Len(r.got[t]) : r.got[t][i] = a.want[t]
=============================================================================
