---------------------------- MODULE SortingTrace ----------------------------
EXTENDS Sorting, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
B(s) == [i \in 1..Len(s) |-> s[i] = 1]
Explains(e) ==
    IF e.op = "values" /\ e.a.ok = 0 THEN e.st # "crash"    \* refused, or sorted somehow: only that the call is safe
    ELSE IF e.st # "ok" THEN FALSE ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "lex" -> e.r.keep = 1 /\ LexAnswer(e.a.cols, B(e.a.asc), e.a.cuts, e.r.idx)
      [] e.op = "index" -> e.r.keep = 1 /\ IndexAnswer(e.a.cols, B(e.a.asc), e.a.start, e.r.idx)
      [] e.op = "void" -> e.r.keep = 1 /\ Grouped(e.a.x, e.r.idx) /\ e.r.sorted = 1
      [] e.op = "issorted" -> e.r = Bool(Sorted(e.a.x))
      [] e.op = "values" -> e.r.keep = 1 /\ ValuesAnswer(e.a.x, e.a.m, e.r.y)
      [] e.op = "indirect" -> IndirectAnswer(e.a.x, e.a.sort, e.r)
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
