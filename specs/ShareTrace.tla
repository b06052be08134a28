----------------------------- MODULE ShareTrace -----------------------------
EXTENDS Share, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Explains(e) ==
    IF e.st # "ok" THEN FALSE ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "history" -> Shared(e.a, e.r)
      [] e.op = "race" -> Whole2(e.a, e.r)
      [] e.op = "threads" -> Apart(e.a, e.r)
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
