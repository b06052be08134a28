---------------------------- MODULE ConvertTrace ----------------------------
EXTENDS Convert, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
ToSet(s) == {s[i] : i \in 1..Len(s)}
Explains(e) ==
    IF e.op = "shift" /\ e.st = "err" THEN e.a.refuse = 1
    ELSE IF e.st # "ok" THEN FALSE ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "convert" -> e.r.same = 1 /\ e.r.flags = 1 /\ e.r.k = e.a.t /\ Converted(e.a.c, e.a.k, e.a.t, e.a.su, e.r.c)
      [] e.op = "upcast" -> e.r.k = Upcast(ToSet(e.a.ks))
      [] e.op = "stack" -> /\ e.r.same = 1
                           /\ e.r.k = (IF e.a.t = "" THEN Upcast(ToSet(e.a.ks)) ELSE e.a.t)
                           /\ Stacked(e.a.arrs, e.a.ks, e.r.k, e.a.off, e.r.c)
      [] e.op = "strings" -> /\ e.r.same = 1 /\ e.r.w = e.a.w /\ Stacked(e.a.arrs, [j \in 1..Len(e.a.arrs) |-> "S"], "S", e.a.off, e.r.c)
      [] e.op = "homogenize" ->
            /\ e.r.same = 1 /\ Len(e.r.arrs) = Len(e.a.arrs)
            /\ e.r.k = (IF e.a.t = "" THEN Upcast(ToSet(e.a.ks)) ELSE e.a.t)
            /\ \A j \in 1..Len(e.a.arrs) : Converted(e.a.arrs[j], e.a.ks[j], e.r.k, 1, e.r.arrs[j])
      [] e.op = "shift" -> /\ Len(e.r.arrs) = Len(e.a.arrs)
                           /\ \A j \in 1..Len(e.a.arrs) : Shifted(e.a.arrs[j], e.a.k, e.r.arrs[j])
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
