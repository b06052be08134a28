---------------------------- MODULE WindowTrace ----------------------------
EXTENDS Window, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Explains(e) ==
    IF e.st # "ok" THEN FALSE ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "roll" -> e.r.same = 1 /\ Series(e.a.f, e.a.x, e.a.kind, e.a.w, e.a.q, e.a.F, e.r.r)
      [] e.op = "long" -> e.r.same = 1 /\ LongSum(e.a.x, e.a.w, e.r.r)
      [] e.op = "time" -> e.r.same = 1 /\ TimeSeries(e.a.f, e.a.x, e.a.t, e.a.d, e.r.r)
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
