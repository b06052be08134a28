---------------------------- MODULE CodecTrace ----------------------------
EXTENDS Codec, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Explains(e) ==
    CASE e.op = "begin" -> TRUE
      [] e.op = "crc" -> e.st = "ok" /\ e.r.crc = Crc(e.a.b)
      [] e.op = "unpack" -> (IF e.st = "err" THEN Decoded(e.a.saved, e.a.damaged = 1, "err", <<>>) ELSE Decoded(e.a.saved, e.a.damaged = 1, e.st, e.r.got))
      [] e.op = "check" -> e.st = "ok" /\ e.r.c1 = e.r.c2 /\ e.r.c1 # e.r.c3
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
