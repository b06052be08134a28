---------------------------- MODULE MaskedTrace ----------------------------
EXTENDS Masked, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* done = 0: the library declined and left the write to its caller, and then nothing may have changed
Untouched(e) == e.r.done = 0 /\ e.r.after = e.a.before
Explains(e) ==
    \* lengths that do not fit are refused with an error, or left to the caller with nothing changed
    IF e.st # "ok" THEN e.st = "err" /\ (e.op = "misfit" \/ (e.op = "assign" /\ ~ Len(e.a.v) \in {1, Total(e.a.cum)})) ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "assign" -> e.r.same = 1 /\ (Untouched(e) \/ (e.r.done = 1 /\ Assigned(e.a.before, e.a.m, e.a.cum, e.a.v, e.r.after)))
      [] e.op = "put" -> e.r.same = 1 /\ (Untouched(e) \/ (e.r.done = 1 /\ PutWhere(e.a.before, e.a.m, e.a.v, e.a.b, e.r.after)))
      [] e.op = "select" -> e.r.same = 1 /\ (e.r.done = 0 \/ Selected(e.a.m, e.a.x, e.a.y, e.r.r))
      [] e.op = "misfit" -> e.r.done = 0 /\ e.r.same = 1
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
