-------------------------------- MODULE Pool --------------------------------
(* What a program sees of the thread pool.  A run is a sequence of events:
     <<1, kind, n>>            work of n elements is handed over
     <<2, t, core, lo, len>>   thread t, as participant number core (-1: not told), starts elements lo .. lo+len-1
     <<3, t, lo>>              and finishes them
     <<4, i>>                  the submitting call returns; i = 1: it says the work was interrupted
     <<5>>                     an interrupt arrives
     <<6, t>>                  a worker writes into work whose submitter has returned
     <<7, q>>                  the program ends; q = 1: all workers sleep
     <<9, n, m, c>>            n bins are shared out among c <= m (m = 0: any number) participants
     <<10, lo, hi>>            one of them gets bins lo .. hi-1
     <<8>>                     nobody makes progress any more *)
EXTENDS Integers, Sequences, FiniteSets
Idle == [open |-> FALSE, n |-> 0, done |-> 0, taken |-> {}, busy |-> {}, int |-> FALSE, ok |-> TRUE, over |-> FALSE, parts |-> 0, bins |-> 0, at |-> 0]
Step(s, e, cores) ==
    IF ~s.ok THEN s ELSE IF s.over THEN [s EXCEPT !.ok = FALSE] ELSE
    \* the shares follow each other and cover all bins
    IF s.parts > 0 /\ e[1] # 10 THEN [s EXCEPT !.ok = FALSE] ELSE
    CASE e[1] = 9 -> [s EXCEPT !.parts = e[4], !.bins = e[2], !.at = 0,
                         !.ok = ~s.open /\ e[4] >= 0 /\ (e[3] > 0 => e[4] <= e[3]) /\ (e[2] > 0 => e[4] > 0)]
      [] e[1] = 10 -> [s EXCEPT !.parts = @ - 1, !.at = e[3],
                          !.ok = s.parts > 0 /\ e[2] = s.at /\ e[3] >= e[2] /\ e[3] <= s.bins /\ (s.parts = 1 => e[3] = s.bins)]
      [] e[1] = 1 -> [Idle EXCEPT !.open = TRUE, !.n = e[3], !.ok = ~s.open /\ s.busy = {}]
      [] e[1] = 2 ->
            \* within the work, elements nobody took, a thread doing nothing else, a number nobody else has
            LET fine == /\ s.open /\ e[5] >= 1 /\ e[4] >= 0 /\ e[4] + e[5] <= s.n
                        /\ \A r \in s.taken : e[4] + e[5] <= r[1] \/ r[1] + r[2] <= e[4]
                        /\ \A b \in s.busy : b[1] # e[2] /\ (e[3] = -1 \/ b[2] # e[3])
                        /\ e[3] \in -1..cores
            IN [s EXCEPT !.ok = fine, !.taken = @ \cup {<<e[4], e[5]>>}, !.busy = @ \cup {<<e[2], e[3], e[4], e[5]>>}]
      [] e[1] = 3 ->
            LET mine == {b \in s.busy : b[1] = e[2] /\ b[3] = e[3]}
            IN IF Cardinality(mine) # 1 THEN [s EXCEPT !.ok = FALSE]
               ELSE [s EXCEPT !.busy = @ \ mine, !.done = @ + (CHOOSE b \in mine : TRUE)[4]]
      [] e[1] = 4 -> [s EXCEPT !.open = FALSE,
                         !.ok = s.open /\ s.busy = {} /\ (e[2] = 1) = s.int /\ (s.int \/ s.done = s.n)]
      [] e[1] = 5 -> [s EXCEPT !.int = TRUE, !.ok = s.open]
      [] e[1] = 7 -> [s EXCEPT !.over = TRUE, !.ok = ~s.open /\ s.busy = {} /\ e[2] = 1]
      [] OTHER -> [s EXCEPT !.ok = FALSE]
RECURSIVE Fold(_, _, _, _)
Fold(s, ev, k, cores) == IF k > Len(ev) THEN s ELSE Fold(Step(s, ev[k], cores), ev, k + 1, cores)
Run(ev, cores) == LET s == Fold(Idle, ev, 1, cores) IN s.ok /\ s.over
=============================================================================
