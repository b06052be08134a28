----------------------------- MODULE PoolTrace -----------------------------
EXTENDS Pool, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Explains(e) == e.st = "ok" /\ (e.op = "begin" \/ (e.op = "run" /\ Run(e.r.ev, e.a.cpus)))
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
