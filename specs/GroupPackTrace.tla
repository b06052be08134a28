--------------------------- MODULE GroupPackTrace ---------------------------
(* Validates recorded GroupByAllPack32 calls: one event per call, every column it was given. *)
EXTENDS GroupPack, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Explains(e) ==
    IF e.st # "ok" THEN FALSE ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "pack" ->
            /\ Len(e.r) = Len(e.a.x)
            /\ \A c \in 1..Len(e.a.x) :
                 PackAnswer(e.a.fn, e.a.x[c], e.a.k[c], e.a.g, e.a.nb, e.a.p, e.a.off, e.a.lo, e.a.w, e.a.q, e.a.F, e.r[c])
      [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
