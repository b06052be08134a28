---------------------------- MODULE CombineTrace ----------------------------
EXTENDS Combine, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Explains(e) ==
    IF e.st # "ok" THEN FALSE ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "filter" -> e.r.same = 1 /\ e.r.k = e.a.k /\ Filtered(e.a.key, e.a.f, e.r.key)
      [] e.op = "pair" -> e.r.same = 1 /\ Paired(e.a.k1, e.a.k2, e.a.f, e.r.r1, e.r.r2)
      [] e.op = "compact" -> /\ e.r.same = 1 /\ e.r.k = e.a.k /\ e.r.count = Len(e.r.first)
                             /\ Compacted(e.a.key, e.a.m, e.a.f, e.r.key, e.r.first)
      [] e.op = "chain" -> Chained(e.a.parts, e.a.n, e.a.f, e.r.key, e.r.first)
      [] e.op = "ends" -> e.r.same = 1 /\ Ends(e.a.key, e.a.m, e.a.f, e.a.last, e.r.r)
      [] e.op = "member" -> e.r.same = 1 /\ Matched(e.a.a, e.a.base1, e.a.on, e.a.b, e.a.base2, e.a.m, e.r.member, e.r.index)
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
