------------------------------- MODULE Logging -------------------------------
(* What a run of the logging service may look like, whatever the schedule.  A run is a sequence of events as written by
   harness/logger.cpp:
     <<0, producers, messages, controllers, batch, room, huge>>  what it is made of
     <<1, p, k>> <<2, p, k>>   producer p logs its k-th message: begin, back
     <<3, p, k>>               the handler gives the message out
     <<4, c>> <<5, c>>         controller c enables: begin, back
     <<6, c, t>> <<7, c, d>>   controller c disables (t: with a time limit): begin, back after d microseconds
     <<8>>                     a pause of more than three flush intervals is over, with all producers back
     <<9>>                     the run is stuck        <<10, a>>  the end, is the service still active *)
EXTENDS Integers, Sequences, FiniteSets
Is(ev, k) == {i \in 1..Len(ev) : ev[i][1] = k}
\* the position of the matching return, or one past the end
Back(ev, i, k) ==
    LET s == {j \in Is(ev, k) : j > i /\ ev[j][2] = ev[i][2]}
    IN IF s = {} THEN Len(ev) + 1 ELSE CHOOSE j \in s : \A m \in s : j <= m
BackMsg(ev, i) ==
    LET s == {j \in Is(ev, 2) : ev[j][2] = ev[i][2] /\ ev[j][3] = ev[i][3]}
    IN IF s = {} THEN Len(ev) + 1 ELSE CHOOSE j \in s : TRUE
OutOf(ev, i) ==
    LET s == {j \in Is(ev, 3) : ev[j][2] = ev[i][2] /\ ev[j][3] = ev[i][3]}
    IN IF s = {} THEN 0 ELSE CHOOSE j \in s : TRUE
Enables(ev) == {<<i, Back(ev, i, 5)>> : i \in Is(ev, 4)}
Disables(ev) == {<<i, Back(ev, i, 7), ev[i][3]>> : i \in Is(ev, 6)}
Messages(ev) == {<<i, BackMsg(ev, i), OutOf(ev, i)>> : i \in Is(ev, 1)}
\* an enabling is over before b and no disabling comes near until e
SurelyOn(en, dis, b, e) == \E x \in en : x[2] < b /\ \A y \in dis : y[2] < x[1] \/ y[1] > e
SurelyOff(en, dis, b, e) ==
    \/ \A x \in en : x[1] > e
    \/ \E y \in dis : y[2] < b /\ \A x \in en : x[2] < y[1] \/ x[1] > e
\* fewer messages than the queue holds can be in it when m comes
Roomy(ms, dis, m, room) ==
    Cardinality({x \in ms : /\ x[1] < m[2]
                            /\ ~(x[3] > 0 /\ x[3] < m[1])
                            /\ ~(\E y \in dis : x[2] < y[1] /\ y[2] < m[1])}) <= room
Run(ev) ==
    LET en == Enables(ev)
        dis == Disables(ev)
        ms == Messages(ev)
        room == ev[1][6]
        batch == ev[1][5]
        out == Is(ev, 3)
        sure == {m \in ms : SurelyOn(en, dis, m[1], m[2]) /\ Roomy(ms, dis, m, room)}
    IN  \* nobody gets stuck and nothing is left behind
        /\ Is(ev, 9) = {} /\ ev[Len(ev)] = <<10, 0>>
        \* what is given out was logged, is given out once and in the order of logging
        /\ \A i \in out : \E m \in ms : ev[m[1]][2] = ev[i][2] /\ ev[m[1]][3] = ev[i][3] /\ m[1] < i /\ m[3] = i
        /\ \A x, y \in ms : x[3] > 0 /\ y[3] > x[3] => x[1] < y[2]
        \* nothing is given out, and nothing taken in, while logging is off
        /\ \A i \in out : ~SurelyOff(en, dis, i, i)
        /\ \A m \in ms : m[3] > 0 => ~SurelyOff(en, dis, m[1], m[2])
        \* what was taken in is given out before a disabling without a time limit is over
        /\ \A m \in sure : \A y \in dis :
              y[1] > m[2] /\ y[3] = 0 /\ ~(\E z \in dis : z[3] = 1 /\ z[1] > m[2] /\ z[1] < y[2]) => m[3] > 0 /\ m[3] < y[2]
        \* and without any disabling, soon
        /\ \A i \in Is(ev, 8) : \A m \in sure : m[2] < i => (m[3] > 0 /\ m[3] < i) \/ \E z \in dis : z[1] > m[2] /\ z[1] < i
        \* no more is kept than there is room for
        /\ \A i \in 1..Len(ev) : Cardinality({m \in ms : m[2] < i /\ m[3] > i}) <= room + batch
        \* disabling does not wait for the flush interval
        /\ ev[1][7] = 1 => \A i \in Is(ev, 7) : ev[i][3] < 1000000
=============================================================================
