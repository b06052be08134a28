----------------------------- MODULE TakeTrace -----------------------------
EXTENDS Take, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* may = 1: the layout of the inputs is one the library may refuse (it must not answer wrongly)
Explains(e) ==
    IF e.st = "err" /\ e.op # "begin" THEN e.a.may = 1 ELSE
    IF e.st # "ok" THEN FALSE ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "mask" -> MaskTake(e.a.v, e.a.m, e.a.cum, e.r.r) /\ e.r.same = 1
      [] e.op = "sum" -> IsCount(e.a.m, e.a.cum) /\ e.r.r = Total(e.a.cum)
      [] e.op = "positions" -> TruePositions(e.a.m, e.a.cum, e.r.r)
      [] e.op = "both" -> BothPositions(e.a.m, e.a.cum, e.r.r, e.r.n)
      [] e.op = "index" -> IndexTake(e.a.v, e.a.x, e.a.def, e.r.r) /\ e.r.same = 1
      [] e.op = "reorder" -> Reordered(e.a.v, e.a.x, e.r.r) /\ e.r.same = 1
      [] e.op = "inverse" -> Inverse(e.a.x, e.r.r)
      [] e.op = "rekey" -> Rekeyed(e.a.k, e.a.u, e.a.ucut, e.a.icut, e.r.r)
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
