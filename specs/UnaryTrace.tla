---------------------------- MODULE UnaryTrace ----------------------------
EXTENDS Unary, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Explains(e) ==
    IF e.st # "ok" THEN FALSE ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "un" -> \/ e.r.none = 1      \* left to numpy
                        \/ /\ e.r.none = 0 /\ e.r.keep = 1 /\ e.r.out = 1 /\ e.r.shape = e.a.shape
                           /\ UnaryAnswer(e.a.f, e.a.k, e.a.W, e.a.u, e.a.sub = 1, e.a.a, e.r)
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
