---------------------------- MODULE ConfigTrace ----------------------------
EXTENDS Config, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s
Init == l = 1 /\ s = Fresh
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           /\ s' = IF Ok(s, e) THEN After(s, e) ELSE s
           /\ IF Ok(s, e) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
