---------------------------- MODULE ReduceTrace ----------------------------
EXTENDS Reduce, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Explains(e) ==
    IF e.st # "ok" THEN FALSE ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "reduce" -> \A i \in 1..Len(e.r) :     \* the answers of repeated calls
                            \/ e.r[i].t = "none"       \* left to numpy
                            \/ e.r[i].keep = 1 /\ ReduceAnswer(e.a.f, e.a.x, e.a.c, e.a.d, e.r[i])
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
