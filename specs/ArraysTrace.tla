---------------------------- MODULE ArraysTrace ----------------------------
EXTENDS Arrays, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* nothing is kept alive or released too often, and the source is as it was
Clean(r) == r.ref = 0 /\ r.held = 1 /\ r.src = 1
Explains(e) ==
    CASE e.op = "begin" -> TRUE
      \* something that is no argument: an ordinary exception
      [] e.op = "wrong" -> e.st = "err"
      [] e.st # "ok" -> FALSE
      [] e.op = "make" -> Clean(e.r) /\ e.r.cls = 1 /\ Made(e.a.x, e.a.sh, e.a.want, e.r) /\ Laid(e.a.order, e.r)
      [] e.op = "keep" -> Clean(e.r) /\ e.r.cls = 1 /\ Kept(e.a, e.r) /\ Laid(e.a.order, e.r)
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
