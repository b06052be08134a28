------------------------------ MODULE LoggingMC ------------------------------
(* The step-level protocol of the logging service: loggers test and push, the handler tests, sleeps, takes and gives out, a
   controller enables and disables.  One step is one shared access or one section under the queue's lock.  There is no flush
   timer: it may only make things happen sooner, so nothing may depend on it. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Loggers, Count, Sessions, Room
VARIABLES q, cap, wait, shut, \* the service
          lp, ln,            \* loggers: step, messages begun
          hp, hm,            \* handler: step, message in hand
          cp, cs,            \* controller: step, sessions begun
          taken, given       \* history: accepted messages, delivered messages
vars == <<q, cap, wait, shut, lp, ln, hp, hm, cp, cs, taken, given>>
None == <<0, 0>>
Init == /\ q = <<>> /\ cap = 0 /\ wait = TRUE /\ shut = TRUE
        /\ lp = [p \in Loggers |-> "idle"] /\ ln = [p \in Loggers |-> 0]
        /\ hp = "none" /\ hm = None /\ cp = "off" /\ cs = 0 /\ taken = <<>> /\ given = <<>>
Notify == IF hp = "asleep" THEN "pop" ELSE hp
Test(p) == /\ lp[p] = "idle" /\ ln[p] < Count
           /\ ln' = [ln EXCEPT ![p] = @ + 1]
           /\ lp' = [lp EXCEPT ![p] = IF shut THEN "idle" ELSE "push"]
           /\ UNCHANGED <<q, cap, wait, shut, hp, hm, cp, cs, taken, given>>
Push(p) == /\ lp[p] = "push"
           /\ IF Len(q) < cap THEN q' = Append(q, <<p, ln[p]>>) /\ taken' = Append(taken, <<p, ln[p]>>) ELSE UNCHANGED <<q, taken>>
           /\ lp' = [lp EXCEPT ![p] = IF Len(q) < cap THEN "notify" ELSE "idle"]
           /\ UNCHANGED <<cap, wait, shut, ln, hp, hm, cp, cs, given>>
Told(p) == /\ lp[p] = "notify" /\ hp' = Notify /\ lp' = [lp EXCEPT ![p] = "idle"]
           /\ UNCHANGED <<q, cap, wait, shut, ln, hm, cp, cs, taken, given>>
Same == UNCHANGED <<cap, shut, lp, ln, cp, cs, taken>>
\* active(): first whether it is shut down, then whether the queue is empty
H1 == /\ hp = "top" /\ hp' = (IF shut THEN "top2" ELSE "pop") /\ UNCHANGED <<q, wait, hm, given>> /\ Same
H2 == /\ hp = "top2" /\ hp' = (IF q = <<>> THEN "exit" ELSE "pop") /\ UNCHANGED <<q, wait, hm, given>> /\ Same
\* the test and the falling asleep are one section under the lock
H3 == /\ hp = "pop"
      /\ IF q # <<>> THEN hm' = Head(q) /\ q' = Tail(q) /\ hp' = "give" /\ UNCHANGED wait
         ELSE IF wait THEN hp' = "asleep" /\ UNCHANGED <<q, hm, wait>>
         ELSE wait' = TRUE /\ hp' = "top" /\ UNCHANGED <<q, hm>>
      /\ UNCHANGED given /\ Same
H4 == /\ hp = "give" /\ given' = Append(given, hm) /\ hm' = None /\ hp' = "top" /\ UNCHANGED <<q, wait>> /\ Same
CSame == UNCHANGED <<q, lp, ln, hm, cs, taken, given>>
C1 == /\ cp = "off" /\ cs < Sessions /\ cs' = cs + 1 /\ cap' = Room /\ cp' = "open"
      /\ UNCHANGED <<q, wait, shut, lp, ln, hp, hm, taken, given>>
C2 == cp = "open" /\ shut' = FALSE /\ cp' = "start" /\ UNCHANGED <<cap, wait, hp>> /\ CSame
C3 == cp = "start" /\ hp' = "top" /\ cp' = "on" /\ UNCHANGED <<cap, wait, shut>> /\ CSame
C4 == cp = "on" /\ cap' = 0 /\ cp' = "shut" /\ UNCHANGED <<wait, shut, hp>> /\ CSame
C5 == cp = "shut" /\ shut' = TRUE /\ cp' = "cancel" /\ UNCHANGED <<cap, wait, hp>> /\ CSame
C6 == cp = "cancel" /\ wait' = FALSE /\ cp' = "notify" /\ UNCHANGED <<cap, shut, hp>> /\ CSame
C7 == cp = "notify" /\ hp' = Notify /\ cp' = "join" /\ UNCHANGED <<cap, wait, shut>> /\ CSame
C8 == cp = "join" /\ hp = "exit" /\ hp' = "none" /\ cp' = "off" /\ UNCHANGED <<cap, wait, shut>> /\ CSame
Done == cp = "off" /\ cs = Sessions /\ (\A p \in Loggers : lp[p] = "idle" /\ ln[p] = Count)
Next == \/ \E p \in Loggers : Test(p) \/ Push(p) \/ Told(p)
        \/ H1 \/ H2 \/ H3 \/ H4 \/ C1 \/ C2 \/ C3 \/ C4 \/ C5 \/ C6 \/ C7 \/ C8
        \/ Done /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
InOrder == Prefix(given, taken)
Bounded == Len(q) <= Room
OffMeansOff == cp = "off" => q = <<>> /\ hm = None /\ given = taken
Ends == <>[](cp = "off" /\ cs = Sessions)
=============================================================================
