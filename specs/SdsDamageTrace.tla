--------------------------- MODULE SdsDamageTrace ---------------------------
EXTENDS SdsDamage, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Explains(e) == CASE e.op = "begin" -> TRUE
                 [] e.op = "damaged" -> IF e.a.damage \in {"magic", "other"} THEN NoFile(e.st, e.r) ELSE ReadIs(e.st, e.a.saved, e.r)
                 [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
Spec == Init /\ [][Next]_l
=============================================================================
