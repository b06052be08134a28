----------------------------- MODULE LoggingTrace -----------------------------
EXTENDS Logging, LogHistory, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Explains(e) ==
    IF e.st # "ok" THEN e.op = "enable" /\ e.st = "err" /\ Refused(e.a) ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "run" -> Run(e.r.ev)
      [] e.op = "enable" -> ~Refused(e.a) /\ e.r = 1
      [] e.op = "session" -> Session(e.a, e.r)
      [] e.op = "exit" -> Exit(e.a, e.r)
      [] e.op = "refs" -> Refs(e.r)
      [] e.op = "crowd" -> Crowd(e.a, e.r)
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
