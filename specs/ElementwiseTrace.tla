-------------------------- MODULE ElementwiseTrace --------------------------
EXTENDS Elementwise, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Explains(e) ==
    IF e.st # "ok" THEN FALSE ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "bin" -> \/ e.r.none = 1      \* left to numpy
                         \/ e.r.none = 0 /\ ElementwiseAnswer(e.a.f, e.a.ka, e.a.kb, e.a.W, e.a.a, e.a.b, e.r)
                            /\ e.r.keep = 1 /\ (e.a.ka = e.a.kb => e.r.out = 1)
      [] e.op = "cat" -> \/ e.r.none = 1
                         \/ /\ Len(e.r.v) = Length(e.a.a, e.a.b)
                            /\ \A i \in 1..Len(e.r.v) : e.r.v[i] = At(e.a.a, i) \o At(e.a.b, i)
      [] e.op = "bound" -> e.r = "error" \/ e.r = "none"
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
