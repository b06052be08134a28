----------------------------- MODULE CutsTrace -----------------------------
EXTENDS Cuts, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Explains(e) ==
    IF e.st # "ok" THEN e.st = "err" /\ e.op = "place" /\ e.a.mode = "sorted" /\ Len(e.a.e) = 0 ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "place" -> e.r.same = 1 /\ Placed(e.a.mode, e.a.e, e.a.v, e.r.r)
      [] e.op = "bad" -> BadCounts(e.a.v, e.a.kind, e.r.r)
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
