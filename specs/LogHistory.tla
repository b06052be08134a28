----------------------------- MODULE LogHistory -----------------------------
(* What users see of logging: sessions between enabling and disabling, refusals, exits and references. *)
EXTENDS Integers, Sequences, FiniteSets
\* a handler that takes nothing from the queue, or never flushes, is refused
Refused(a) == a.interval < 1 \/ a.batch < 1
CountIn(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
InCallOrder(s) == \A i \in 1..Len(s) - 1 : s[i] <= s[i + 1]
(* a.ops: calls 1..n made while enabled; a.level: the logger's level; a.full: neither a time limit nor a small queue;
   a.bad: the call one of whose records makes a filter fail (0: none); a.wait: given time to deliver before disabling.
   r.any: some record came; r.got: the call of every delivered record, in order; r.stray: records of calls made while disabled; r.late: records that came
   after disabling; r.stamps, r.names, r.levels: all records carry a time within their call, the logger's name, an admitted level *)
Session(a, r) ==
    /\ InCallOrder(r.got)
    /\ \A i \in 1..Len(r.got) : r.got[i] \in 1..a.ops
    /\ r.stray = 0 /\ r.late = 0 /\ r.stamps = 1 /\ r.names = 1 /\ r.levels = 1
    /\ IF a.level > 40 THEN r.got = <<>>
       ELSE IF a.full = 1 /\ a.ops > 0 THEN
            \* records of each call: the same for all, but that one of the failing call's is lost (it may be a repeated one)
            LET c == [i \in 1..a.ops |-> CountIn(r.got, i)]
                fine == (1..a.ops) \ {a.bad}
            IN /\ \A i \in fine : c[i] >= 1 /\ \A j \in fine : c[i] = c[j]
               /\ a.bad > 0 => \A j \in fine : c[a.bad] = c[j] - 1 \/ (a.wide > 1 /\ c[a.bad] = c[j])
       ELSE a.limit = 1 \/ a.bad > 0 \/ a.ops = 0 \/ r.any = 1
    /\ a.wait = 1 => r.early = Len(r.got)
\* leaving the process: its own exit code, and every record delivered
Exit(a, r) == r.code = a.code /\ r.got = r.want
Refs(r) == r.held = 1 /\ r.freed = 1 /\ r.grown = 0
\* several threads log while another enables and disables: once each at most, in order per thread, and logging works afterwards
Crowd(a, r) ==
    /\ \A t \in 1..Len(r.got) : InCallOrder(r.got[t]) /\ \A i \in 1..a.ops : CountIn(r.got[t], i) <= a.per
    /\ r.after = a.per /\ r.late = 0
=============================================================================
