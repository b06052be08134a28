------------------------------ MODULE EmaTrace ------------------------------
EXTENDS Ema, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Explains(e) ==
    IF e.st # "ok" THEN FALSE ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "cum" -> Len(e.r) = Len(e.a.x) /\ \A c \in 1..Len(e.a.x) : CumAnswer(e.a.fn, e.a.x[c], e.a.g, e.a.nb, e.a.inc, e.a.rst, e.r[c])
      [] e.op = "nth" -> Len(e.r) = 1 /\ NthAnswer(e.a.g, e.a.nb, e.a.inc, e.r[1])
      [] e.op = "ema" -> Len(e.r) = Len(e.a.x) /\ \A c \in 1..Len(e.a.x) :
                            EmaAnswer(e.a.fn, e.a.x[c], e.a.g, e.a.nb, e.a.inc, e.a.rst, e.a.hr, e.a.t, e.a.w, e.r[c])
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
