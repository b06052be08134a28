-------------------------------- MODULE Sds --------------------------------
(* SDS files.  A file is the sequence of its sections (none: no such file); a section has metadata and items in order.
   An item: name n, flags fl, type k, shape sh, memory order o (1: column-major), values v in row-major order, coded as in
   Codes.tla (long arrays as digests).  An item's rows are those of its first dimension. *)
EXTENDS Codes
LOCAL INSTANCE Sequences

Rows(it) == it.sh[1]
RECURSIVE Prod(_, _)
Prod(sh, k) == IF k > Len(sh) THEN 1 ELSE sh[k] * Prod(sh, k + 1)
RowSize(it) == Prod(it.sh, 2)

\* what an operation leaves in the files
Effect(fs, op) ==
    CASE op.op = "write" ->
           LET s == [meta |-> op.meta, items |-> op.items] IN
           [fs EXCEPT ![op.f] = IF op.sec = "" THEN <<s>> ELSE Append(@, s)]
      [] op.op = "concat" ->
           [fs EXCEPT ![op.out] = FoldIdx(LAMBDA a, k : a \o fs[op.fs[k]], <<>>, 1, Len(op.fs))]
      [] OTHER -> fs

Wanted(op, n) == op.all = 1 \/ \E k \in 1..Len(op.inc) : op.inc[k] = n
Chosen(op, items) == SelectSeq(items, LAMBDA it : Wanted(op, it.n))
Sections(fs, op) == FoldIdx(LAMBDA a, k : a \o fs[op.fs[k]], <<>>, 1, Len(op.fs))
\* each section on its own; a file that is missing and need not exist stands as an empty one, unless all are missing
Absent == [meta |-> 0 - 1, items |-> <<>>]
Refuses(fs, op) == \/ \A k \in 1..Len(op.fs) : fs[op.fs[k]] = <<>>
                   \/ op.must = 1 /\ \E k \in 1..Len(op.fs) : fs[op.fs[k]] = <<>>
Entries(fs, op) == FoldIdx(LAMBDA a, k : a \o (IF fs[op.fs[k]] = <<>> THEN <<Absent>> ELSE fs[op.fs[k]]), <<>>, 1, Len(op.fs))
Loaded(fs, op) == LET ss == Entries(fs, op) IN [k \in 1..Len(ss) |-> [meta |-> ss[k].meta, items |-> Chosen(op, ss[k].items)]]
Outline(r) == [k \in 1..Len(r) |-> [meta |-> r[k].meta, items |-> [j \in 1..Len(r[k].items) |->
                 [n |-> r[k].items[j].n, fl |-> r[k].items[j].fl, k |-> r[k].items[j].k, sh |-> r[k].items[j].sh]]]]

(* Stacked: for every item found in any section, the rows of all sections in order; where a section has no such item, as many
   invalid rows as the section has.  With a mask, only the rows it selects. *)
Has(s, n) == \E k \in 1..Len(s.items) : s.items[k].n = n
Item(s, n) == s.items[CHOOSE k \in 1..Len(s.items) : s.items[k].n = n]
\* a section without any wanted item contributes no rows
Length(s) == IF Len(s.items) = 0 THEN 0 ELSE Rows(s.items[1])
Names(ss, op) == FoldIdx(LAMBDA a, i : FoldIdx(LAMBDA b, j : LET n == ss[i].items[j].n IN
                    IF Wanted(op, n) /\ ~(\E q \in 1..Len(b) : b[q] = n) THEN Append(b, n) ELSE b, a, 1, Len(ss[i].items)), <<>>, 1, Len(ss))
RowCount(s, n) == IF Has(s, n) THEN Rows(Item(s, n)) ELSE Length(s)
Starts(ss, n) == FoldIdx(LAMBDA a, i : Append(a, a[i] + RowCount(ss[i], n)), <<0>>, 1, Len(ss))
Model(ss, n) == Item(ss[CHOOSE i \in 1..Len(ss) : Has(ss[i], n) /\ \A j \in 1..(i - 1) : ~Has(ss[j], n)], n)
Whole(ss, n) == FoldIdx(LAMBDA a, i : a \o (IF Has(ss[i], n) THEN Item(ss[i], n).v
                                            ELSE [j \in 1..(Length(ss[i]) * RowSize(Model(ss, n))) |-> INV]), <<>>, 1, Len(ss))
Selected(op, r) == op.mask = <<>> \/ (r <= Len(op.mask) /\ op.mask[r] = 1)
ColumnIs(ss, op, n, c) ==
    LET w == RowSize(Model(ss, n))
        v == TLCEval(Whole(ss, n))
        st == TLCEval(Starts(ss, n))
        total == st[Len(st)]
        \* running number of selected rows
        cnt == TLCEval(FoldIdx(LAMBDA a, r : Append(a, a[r] + (IF Selected(op, r) THEN 1 ELSE 0)), <<0>>, 1, total))
        kinds == {Item(ss[i], n).k : i \in {i \in 1..Len(ss) : Has(ss[i], n)}}
        same == Cardinality(kinds) = 1
        tail == Tail(Model(ss, n).sh)
        fill == IF c.k = "|b1" THEN 0 ELSE INV
        Eq(a, b) == a = (IF b = INV /\ c.k = "|b1" THEN 0 ELSE b)
    IN /\ c.n = n /\ c.fl = Model(ss, n).fl
       /\ (same => c.k \in kinds)
       /\ c.sh = <<cnt[total + 1]>> \o tail
       /\ Len(c.v) = cnt[total + 1] * w
       /\ \A r \in 1..total : Selected(op, r) => \A j \in 1..w : Eq(c.v[cnt[r] * w + j], v[(r - 1) * w + j])
       /\ c.cut = [i \in 1..Len(ss) |-> cnt[st[i + 1] + 1]]
StackIs(fs, op, r) ==
    LET all == Sections(fs, op) ns == Names(all, op)
        ss == [i \in 1..Len(all) |-> [meta |-> all[i].meta, items |-> Chosen(op, all[i].items)]] IN
    /\ ns # <<>> => r.meta = [i \in 1..Len(ss) |-> ss[i].meta]
    /\ Len(r.cols) = Len(ns)
    /\ \A k \in 1..Len(ns) : ColumnIs(ss, op, ns[k], r.cols[k])

\* the result r of an operation on the files fs
ResultIs(fs, op, r) ==
    CASE op.op \in {"write", "concat"} -> r.st = "ok"
      [] op.op = "load" -> IF Refuses(fs, op) THEN r.st # "ok" ELSE r.st = "ok" /\ r.r = Loaded(fs, op)
      [] op.op = "info" -> IF Refuses(fs, op) THEN r.st # "ok" ELSE r.st = "ok" /\ r.r = Outline(Loaded(fs, op))
      [] op.op = "stack" -> IF Sections(fs, op) = <<>> THEN r.st # "ok" ELSE r.st = "ok" /\ StackIs(fs, op, r.r)
      [] OTHER -> FALSE
\* a whole history: the results of the operations in turn
RECURSIVE Explained(_, _, _, _)
Explained(fs, ops, rs, k) ==
    IF k > Len(ops) THEN TRUE
    ELSE (IF ResultIs(fs, ops[k], rs[k]) THEN TRUE ELSE PrintT(<<"OP", k, ops[k].op>>) /\ FALSE) /\ Explained(TLCEval(Effect(fs, ops[k])), ops, rs, k + 1)
History(nfiles, ops, rs) == Len(rs) = Len(ops) /\ Explained([f \in 1..nfiles |-> <<>>], ops, rs, 1)
=============================================================================
