--------------------------- MODULE PackingTrace ---------------------------
EXTENDS Packing, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Explains(e) ==
    IF e.op = "badkey" THEN e.st = "err" ELSE
    IF e.op = "nothing" THEN e.st = "err" \/ e.r = 0 ELSE
    IF e.st # "ok" THEN FALSE ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "next" -> NextRows(e.a.k, e.a.nb, e.a.back, e.r)
      \* counts alone are judged against a packing offered with the call
      [] e.op = "count" -> Slices(e.a.k, e.a.nb, e.a.first, e.r, e.a.rows)
      [] e.op = "pack" -> /\ Slices(e.a.k, e.a.nb, e.r.first, e.r.count, e.r.rows) /\ Ascending(e.r.first, e.r.count)
                          /\ Len(e.r.rows) = Len(e.a.k)
      [] e.op = "packnext" -> /\ Slices(e.a.k, e.a.nb, e.r.first, e.r.count, e.r.rows) /\ ZeroPlaced(e.a.k, e.r.first, e.r.count)
                              /\ Len(e.r.rows) = Len(e.a.k)
      [] e.op = "lex" -> LexGroups(e.a.v, e.a.order, e.a.base, e.r.key, e.r.first, e.r.count)
      [] e.op = "lexcut" -> LexPartitions(e.a.v, e.a.order, e.a.cuts, e.r.key, e.r.first, e.r.count, e.r.uniq, e.r.after)
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
