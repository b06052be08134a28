--------------------------- MODULE RecyclerTrace ---------------------------
EXTENDS Recycler, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, s, dead      \* dead: the rest of a rejected history is not judged
Init == l = 1 /\ s = Empty0 /\ dead = FALSE
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ LET e == Trace[l] IN
           IF e.op = "begin" THEN s' = Empty0 /\ dead' = FALSE
           ELSE IF dead THEN UNCHANGED <<s, dead>>
           ELSE IF e.st = "ok" /\ Legal(s, e) /\ Seen(After(s, e), e.see)
                THEN s' = After(s, e) /\ UNCHANGED dead
                ELSE PrintT(<<"REJECT", l>>) /\ dead' = TRUE /\ UNCHANGED s
=============================================================================
