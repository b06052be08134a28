---------------------------- MODULE MiscTrace ----------------------------
EXTENDS Misc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Explains(e) ==
    IF e.st # "ok" THEN FALSE ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "bits" -> e.r.same = 1 /\ e.r.sh = e.a.sh /\ Counted(e.a.bool = 1, e.a.x, e.r.r)
      [] e.op = "trim" -> e.r.rest = 1 /\ Trimmed(e.a.x, e.r.r)
      [] e.op = "interp" -> e.r.same = 1 /\ Interpolated(e.a.x, e.a.xp, e.a.yp, e.a.clip = 1, e.r.r)
      [] e.op = "cols" -> e.r.rest = 1 /\ Columns(e.a.rows, e.a.cols, e.r.r)
      \* long ones: every column holds the values its rows were filled with
      [] e.op = "longcols" -> e.r.rest = 1 /\ e.r.r = e.a.v
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
