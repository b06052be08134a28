----------------------------- MODULE DatesTrace -----------------------------
EXTENDS Dates, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Explains(e) ==
    IF e.st # "ok" THEN FALSE ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "parse" -> e.r.same = 1 /\ Array(e.a.kind, e.a.s, e.r.v, e.r.w = 1)
      [] e.op = "format" -> e.r.same = 1 /\ Len(e.r.v) = Len(e.a.s) /\ \A k \in 1..Len(e.a.s) : ByFormat(e.a.f, e.a.s[k], e.r.v[k])
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
