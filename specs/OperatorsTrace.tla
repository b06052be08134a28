-------------------------- MODULE OperatorsTrace --------------------------
EXTENDS Operators, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
\* operands as they were, nothing kept alive or released too often, the class kept
Clean(r) == r.src = 1 /\ r.ref = 0 /\ r.cls = 1 /\ r.sh = 1
Explains(e) ==
    CASE e.op = "begin" -> TRUE
      [] e.st # "ok" -> FALSE
      [] e.op = "bin" -> Clean(e.r) /\ Answer(e.a.f, e.a.ka, e.a.kb, e.a.a, e.a.b, e.r)
      [] e.op = "inp" -> Clean(e.r) /\ InPlace(e.a.f, e.a.ka, e.a.kb, e.a.a, e.a.b, e.r)
      [] e.op = "una" -> Clean(e.r) /\ Single(e.a.f, e.a.k, e.a.x, e.r)
      \* texts, as their places in the order of all of them
      [] e.op = "txt" -> Clean(e.r) /\ e.r.k = "b1" /\ Len(e.r.v) = Length(e.a.a, e.a.b)
                         /\ \A i \in 1..Len(e.r.v) : e.r.v[i] = Compare(e.a.f, At(e.a.a, i), At(e.a.b, i))
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
