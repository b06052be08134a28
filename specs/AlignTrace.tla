----------------------------- MODULE AlignTrace -----------------------------
EXTENDS Align, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Rows(cols) == IF Len(cols) = 1 THEN cols[1]
              ELSE TLCEval([i \in 1..Len(cols[1]) |-> [c \in 1..Len(cols) |-> cols[c][i]]])
Explains(e) ==
    IF e.st # "ok" THEN FALSE ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "align" -> AlignAnswer(Rows(e.a.k1), Rows(e.a.k2), e.a.v1, e.a.v2, e.a.fwd, e.a.exact, e.r)
      [] e.op = "binned" -> AlignAnswer(e.a.k1, e.a.k2, e.a.v1, e.a.v2, 0, 1, e.r)
      [] e.op = "longalign" -> LongAlignAnswer(e.a.k1, e.a.k2, e.a.v1, e.a.v2, e.a.fwd, e.a.exact, e.a.nx, e.a.at, e.r)
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
