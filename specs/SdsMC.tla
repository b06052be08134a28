------------------------------- MODULE SdsMC -------------------------------
(* All short histories of two files with sections of up to two items: appending keeps what was there, stacking files is
   stacking their concatenation, a named load is a part of the full one, a mask of ones changes nothing. *)
EXTENDS Sds
CONSTANTS MaxSections
VARIABLES files, last
vars == <<files, last>>
D(k) == CASE k = 1 -> <<[n |-> "a", fl |-> 1, k |-> "<i4", sh |-> <<1>>, o |-> 0, v |-> <<7>>]>>
          [] k = 2 -> <<[n |-> "b", fl |-> 1, k |-> "<i4", sh |-> <<2, 2>>, o |-> 0, v |-> <<1, 2, 3, 4>>], [n |-> "a", fl |-> 1, k |-> "<i8", sh |-> <<2>>, o |-> 0, v |-> <<8, INV>>]>>
          [] OTHER -> <<[n |-> "a", fl |-> 1, k |-> "<i4", sh |-> <<0>>, o |-> 0, v |-> <<>>]>>
Write(f, k, sec) == [op |-> "write", f |-> f, sec |-> sec, meta |-> k, items |-> D(k)]
Init == files = [f \in 1..3 |-> <<>>] /\ last = <<>>
Do(op) == files' = Effect(files, op) /\ last' = <<files, op>>
Next == \/ \E f \in 1..2, k \in 1..3, sec \in {"", "s"} : (sec = "" \/ Len(files[f]) < MaxSections) /\ Do(Write(f, k, sec))
        \/ files[1] # <<>> /\ files[2] # <<>> /\ Do([op |-> "concat", fs |-> <<1, 2>>, out |-> 3])
Spec == Init /\ [][Next]_vars
View == files
Stack(fs, inc, m) == [op |-> "stack", fs |-> fs, all |-> IF inc = <<>> THEN 1 ELSE 0, inc |-> inc, mask |-> m]
\* the stacked columns as the specification gives them
Col(ss, n, w) == [n |-> n, fl |-> 1, k |-> "<i8", sh |-> IF n = "b" THEN <<Len(w) \div 2, 2>> ELSE <<Len(w)>>, v |-> w,
                  cut |-> [i \in 1..Len(ss) |-> Starts(ss, n)[i + 1]]]
Result(fs, op) == LET ss == Sections(fs, op) ns == Names(ss, op) IN
    [meta |-> [i \in 1..Len(ss) |-> ss[i].meta], cols |-> [k \in 1..Len(ns) |-> [Col(ss, ns[k], Whole(ss, ns[k])) EXCEPT !.k = IF ns[k] = "b" THEN "<i4" ELSE
        IF Cardinality({Item(ss[i], "a").k : i \in {j \in 1..Len(ss) : Has(ss[j], "a")}}) = 1 THEN Model(ss, "a").k ELSE "<i8"]]]
Both == files[1] # <<>> /\ files[2] # <<>>
Concatenated == Both => LET g == Effect(files, [op |-> "concat", fs |-> <<1, 2>>, out |-> 3]) IN
    /\ StackIs(files, Stack(<<1, 2>>, <<>>, <<>>), Result(g, Stack(<<3>>, <<>>, <<>>)))
    /\ Loaded(files, Stack(<<1, 2>>, <<>>, <<>>)) = Loaded(g, Stack(<<3>>, <<>>, <<>>))
Ones == Both => LET op == Stack(<<2, 1>>, <<>>, <<>>) r == Result(files, op) IN
    /\ StackIs(files, op, r) /\ StackIs(files, [op EXCEPT !.mask = [k \in 1..12 |-> 1]], r)
    /\ (r.cols[1].v # <<>> => ~StackIs(files, [op EXCEPT !.mask = [k \in 1..12 |-> 0]], r))
Part == \A f \in 1..2 : LET w == Loaded(files, Stack(<<f>>, <<"a">>, <<>>)) a == Loaded(files, Stack(<<f>>, <<>>, <<>>)) IN
    \A k \in 1..Len(a) : w[k].items = SelectSeq(a[k].items, LAMBDA it : it.n = "a")
Kept == last # <<>> /\ last[2].op = "write" /\ last[2].sec # "" => SubSeq(files[last[2].f], 1, Len(last[1][last[2].f])) = last[1][last[2].f]
=============================================================================
