--------------------------- MODULE GroupAggTrace ---------------------------
(* Validates recorded GroupByAll32 calls: one event per call, every column it was given. *)
EXTENDS GroupAgg, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
Explains(e) ==
    IF e.st # "ok" THEN FALSE ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "agg" ->
            /\ Len(e.r) = Len(e.a.x)
            /\ \A c \in 1..Len(e.a.x) :
                 AggAnswer(e.a.fn, e.a.x[c], e.a.g, e.a.nb, e.a.p, e.a.off, e.a.lo, e.a.hi, e.a.F, e.a.k[c] = "b1", e.r[c])
      [] e.op = "aggs" ->      \* the answers of repeated calls
            \A r \in 1..Len(e.r) :
            /\ Len(e.r[r]) = Len(e.a.x)
            /\ \A c \in 1..Len(e.a.x) :
                 AggAnswer(e.a.fn, e.a.x[c], e.a.g, e.a.nb, e.a.p, e.a.off, e.a.lo, e.a.hi, e.a.F, e.a.k[c] = "b1", e.r[r][c])
      [] OTHER -> FALSE
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
