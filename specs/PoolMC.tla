------------------------------- MODULE PoolMC -------------------------------
(* The pool's protocol at the level of its shared accesses: a submitter (thread 0) hands Works works of Blocks blocks, one after
   the other, through a ring of Ring slots to Workers workers that sleep on a futex.  One access per step; every interleaving. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Workers, Works, Blocks, Ring, MaxWake, Interrupts, Spurs
W == 1..Workers
T == 0..Workers
VARIABLES wi, wc, tw, aw,          \* WorkIndex, WorkIndexCompleted, ThreadWakeup, ThreadsAwakened
          bn, bl, bc,              \* per slot: next block, number of blocks, blocks completed
          pc, lw, slot, blk, did,  \* per thread: program counter, work index read, slot, block taken, did some work
          int, ints, spurs,        \* interrupted now; interrupts left; spurious wake-ups left
          open, done, took         \* ghosts: work between hand-over and return; blocks finished and taken of the open work
vars == <<wi, wc, tw, aw, bn, bl, bc, pc, lw, slot, blk, did, int, ints, spurs, open, done, took>>
Min(a, b) == IF a < b THEN a ELSE b
Init == /\ wi = 0 /\ wc = 0 /\ tw = 0 /\ aw = 0 /\ bn = [s \in 0..Ring - 1 |-> 0] /\ bl = bn /\ bc = bn
        /\ pc = [t \in T |-> IF t = 0 THEN "last" ELSE "start"] /\ lw = [t \in T |-> 0] /\ slot = [t \in T |-> 0]
        /\ blk = [t \in T |-> 0] /\ did = [t \in T |-> FALSE] /\ int = FALSE /\ ints = Interrupts /\ spurs = Spurs /\ open = FALSE /\ done = {} /\ took = <<>>
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
ring == <<wi, wc, tw, aw>>
item == <<bn, bl, bc>>
loc == <<lw, slot, blk, did>>
gh == <<open, done, took>>
irq == <<int, ints, spurs>>
S == wi % Ring
\* the submitter
Last == pc[0] = "last" /\ wi < Works /\ bl' = [bl EXCEPT ![S] = Blocks] /\ open' = TRUE /\ done' = {} /\ took' = [b \in 0..Blocks - 1 |-> 0]
        /\ Go(0, "completed0") /\ slot' = [slot EXCEPT ![0] = S] /\ UNCHANGED <<ring, bn, bc, lw, blk, did, irq>>
Completed0 == pc[0] = "completed0" /\ bc' = [bc EXCEPT ![S] = 0] /\ Go(0, "next0") /\ UNCHANGED <<ring, bn, bl, loc, irq, gh>>
Next0 == pc[0] = "next0" /\ bn' = [bn EXCEPT ![S] = 0] /\ Go(0, "index") /\ UNCHANGED <<ring, bc, bl, loc, irq, gh>>
Index == pc[0] = "index" /\ wi' = wi + 1 /\ Go(0, "wakeup") /\ UNCHANGED <<wc, tw, aw, item, loc, irq, gh>>
Wakeup == pc[0] = "wakeup" /\ tw' = MaxWake /\ Go(0, "futex") /\ UNCHANGED <<wi, wc, aw, item, loc, irq, gh>>
Futex == pc[0] = "futex" /\ LET z == {t \in W : pc[t] = "asleep"} IN
         \E x \in SUBSET z : Cardinality(x) = Min(MaxWake, Cardinality(z))
            /\ pc' = [t \in T |-> IF t = 0 THEN "take" ELSE IF t \in x THEN "start" ELSE pc[t]]
            /\ UNCHANGED <<ring, item, loc, irq, gh>>
\* taking and doing blocks, by anyone
Take(t) == pc[t] = "take" /\ LET b == bn[slot[t]] IN
           /\ bn' = [bn EXCEPT ![slot[t]] = @ + 1]
           /\ IF b < bl[slot[t]] /\ ~int
              THEN /\ blk' = [blk EXCEPT ![t] = b] /\ took' = [took EXCEPT ![b] = @ + 1] /\ Go(t, "work") /\ UNCHANGED did
              ELSE /\ UNCHANGED <<blk, took>>
                   /\ IF t = 0 THEN Go(0, "wait") /\ UNCHANGED did
                      ELSE Go(t, IF did[t] THEN "look" ELSE "yield") /\ did' = [did EXCEPT ![t] = FALSE]
           /\ UNCHANGED <<ring, bl, bc, lw, slot, irq, open, done>>
Work(t) == pc[t] = "work" /\ done' = done \cup {blk[t]} /\ Go(t, "tell") /\ UNCHANGED <<ring, item, loc, irq, open, took>>
Tell(t) == pc[t] = "tell" /\ bc' = [bc EXCEPT ![slot[t]] = @ + 1] /\ did' = [did EXCEPT ![t] = TRUE] /\ Go(t, "take")
           /\ UNCHANGED <<ring, bn, bl, lw, slot, blk, irq, gh>>
Wait == pc[0] = "wait" /\ (bc[slot[0]] >= bl[slot[0]] \/ int) /\ Go(0, "complete") /\ UNCHANGED <<ring, item, loc, irq, gh>>
Complete == pc[0] = "complete" /\ wc' = wc + 1 /\ Go(0, "join") /\ UNCHANGED <<wi, tw, aw, item, loc, irq, gh>>
Join == pc[0] = "join" /\ aw = 0 /\ Go(0, "return") /\ UNCHANGED <<ring, item, loc, irq, gh>>
Return == pc[0] = "return" /\ open' = FALSE /\ int' = FALSE /\ Go(0, "last") /\ UNCHANGED <<ring, item, loc, ints, spurs, done, took>>
\* a worker
Start(t) == pc[t] = "start" /\ aw' = aw + 1 /\ Go(t, "look") /\ UNCHANGED <<wi, wc, tw, item, loc, irq, gh>>
Look(t) == pc[t] = "look" /\ t > 0 /\ lw' = [lw EXCEPT ![t] = wi] /\ Go(t, "look2") /\ UNCHANGED <<ring, item, slot, blk, did, irq, gh>>
Look2(t) == pc[t] = "look2" /\ Go(t, IF lw[t] > wc THEN "count" ELSE "yield") /\ UNCHANGED <<ring, item, loc, irq, gh>>
Count(t) == pc[t] = "count" /\ tw' = tw - 1 /\ Go(t, IF tw - 1 >= 0 THEN "item" ELSE "yield") /\ UNCHANGED <<wi, wc, aw, item, loc, irq, gh>>
ItemOf(t) == pc[t] = "item" /\ slot' = [slot EXCEPT ![t] = (wi - 1) % Ring] /\ Go(t, "take") /\ UNCHANGED <<ring, item, lw, blk, did, irq, gh>>
Yield(t) == pc[t] = "yield" /\ aw' = aw - 1 /\ Go(t, "sleep") /\ UNCHANGED <<wi, wc, tw, item, loc, irq, gh>>
Sleep(t) == pc[t] = "sleep" /\ Go(t, IF wi = lw[t] THEN "asleep" ELSE "start") /\ UNCHANGED <<ring, item, loc, irq, gh>>
Spurious(t) == pc[t] = "asleep" /\ spurs > 0 /\ spurs' = spurs - 1 /\ Go(t, "start") /\ UNCHANGED <<ring, item, loc, int, ints, gh>>
Interrupt == open /\ ~int /\ ints > 0 /\ pc[0] # "last" /\ int' = TRUE /\ ints' = ints - 1 /\ UNCHANGED <<ring, item, pc, loc, spurs, gh>>
Main == Last \/ Completed0 \/ Next0 \/ Index \/ Wakeup \/ Futex \/ Take(0) \/ Work(0) \/ Tell(0) \/ Wait \/ Complete \/ Join \/ Return
Worker(t) == Start(t) \/ Look(t) \/ Look2(t) \/ Count(t) \/ ItemOf(t) \/ Take(t) \/ Work(t) \/ Tell(t) \/ Yield(t) \/ Sleep(t)
Finished == pc[0] = "last" /\ wi = Works
Next == Main \/ (\E t \in W : Worker(t)) \/ (\E t \in W : Spurious(t)) \/ Interrupt
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ \A t \in W : WF_vars(Worker(t))
\* every block at most once; nobody is inside work that was returned; a return that was not interrupted found everything done
Once == open => \A b \in DOMAIN took : took[b] <= 1
Inside == \A t \in W : pc[t] \in {"item", "take", "work", "tell"} => open
AllDone == pc[0] = "return" /\ ~int => (done = 0..Blocks - 1 /\ \A b \in 0..Blocks - 1 : took[b] = 1)
NoneLeft == pc[0] = "return" => \A t \in W : pc[t] \notin {"take", "work", "tell", "item"}
Right == \A t \in T : open /\ pc[t] \in {"take", "work", "tell"} => slot[t] = slot[0]
Ends == <>Finished
=============================================================================
