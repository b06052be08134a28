-------------------------------- MODULE Config --------------------------------
(* Settings and calls.  A state keeps the settings (-1: not known yet) and, per call, the result it gave. *)
EXTENDS Integers, Sequences, TLC
MAXWAKE == 31
Fresh == [off |-> -1, wake |-> -1, rec |-> -1, col |-> -1, memo |-> <<>>]
Clamp(n) == IF n < 1 THEN 1 ELSE IF n > MAXWAKE THEN MAXWAKE ELSE n
Was(known, told) == known = -1 \/ known = told
\* the result of call id under layout lay is the call's result; a refusal counts only for the plain layout
Known(s, id) == id \in DOMAIN s.memo
CallOk(s, a, r) ==
    /\ r.keep = 1
    /\ IF ~Known(s, a.id) THEN a.lay = "plain"
       ELSE IF r.err = 1 /\ a.lay # "plain" THEN TRUE
       ELSE IF s.memo[a.id].err = 1 /\ a.lay # "plain" THEN TRUE
       ELSE r.err = s.memo[a.id].err /\ r.r = s.memo[a.id].r
Ok(s, e) ==
    /\ e.st = "ok"
    /\ CASE e.op = "begin" -> TRUE
         [] e.op = "call" -> CallOk(s, e.a, e.r)
         [] e.op = "threads" -> Was(s.off, e.r) /\ e.r \in 0..1
         [] e.op = "wake" -> Was(s.wake, e.r) /\ e.r \in 1..MAXWAKE
         [] e.op = "wakeful" -> s.wake = e.r
         [] e.op = "recycle" -> TRUE
         [] e.op = "collect" -> Was(s.col, e.r)
         [] OTHER -> FALSE
After(s, e) ==
    CASE e.op = "begin" -> Fresh
      [] e.op = "call" -> IF Known(s, e.a.id) THEN s ELSE [s EXCEPT !.memo = (e.a.id :> [r |-> e.r.r, err |-> e.r.err]) @@ @]
      [] e.op = "threads" -> [s EXCEPT !.off = e.a.off]
      [] e.op = "wake" -> [s EXCEPT !.wake = Clamp(e.a.n)]
      [] e.op = "recycle" -> [s EXCEPT !.rec = e.a.off]
      [] e.op = "collect" -> [s EXCEPT !.col = e.a.t]
      [] OTHER -> s
=============================================================================
