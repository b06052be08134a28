------------------------------ MODULE ShareMC ------------------------------
(* Step by step: processes that save to one shared name (unlink, create, fill part after part, publish), may be killed at any
   moment, and processes that load (open, look whether it is published, map, read part after part).  A loader that finds nothing
   may copy its file the same way.  Loads never see parts of different saves, loaded contents never change, loads never go back,
   and nothing is mapped for long dead. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Savers, Loaders, Parts, Saves, Publishing
ASSUME Savers \cap Loaders = {}
VARIABLES name, mem, pc, at, part, made, killed, seen, from
vars == <<name, mem, pc, at, part, made, killed, seen, from>>
Procs == Savers \cup Loaders
None == 0
\* a block of memory: what its parts hold (0: nothing yet), and whether its header says it is complete
Blank == [v |-> [k \in 1..Parts |-> 0], whole |-> FALSE]
Blocks == 1..Cardinality(DOMAIN mem)
Init == /\ name = None /\ mem = <<>> /\ pc = [p \in Procs |-> "idle"] /\ at = [p \in Procs |-> None] /\ part = [p \in Procs |-> 1]
        /\ made = [p \in Savers |-> 0] /\ killed = {} /\ seen = [p \in Loaders |-> 0] /\ from = [p \in Procs |-> [k \in 1..Parts |-> 0]]
Version(p) == made[p] * 10 + p
Unlink(p) == /\ pc[p] = "idle" /\ made[p] < Saves
             /\ made' = [made EXCEPT ![p] = @ + 1] /\ name' = None /\ pc' = [pc EXCEPT ![p] = "create"]
             /\ UNCHANGED <<mem, at, part, killed, seen, from>>
\* creating is exclusive: a saver that finds the name taken removes it first
Create(p) == /\ pc[p] = "create"
             /\ IF name # None THEN name' = None /\ UNCHANGED <<mem, pc, at, part>>
                ELSE /\ mem' = [b \in 1..Cardinality(DOMAIN mem) + 1 |-> IF b \in DOMAIN mem THEN mem[b] ELSE [Blank EXCEPT !.whole = ~Publishing]]
                     /\ name' = Cardinality(DOMAIN mem) + 1 /\ at' = [at EXCEPT ![p] = name'] /\ part' = [part EXCEPT ![p] = 1]
                     /\ pc' = [pc EXCEPT ![p] = "fill"]
             /\ UNCHANGED <<made, killed, seen, from>>
Fill(p) == /\ pc[p] = "fill"
           /\ IF part[p] <= Parts THEN /\ mem' = [mem EXCEPT ![at[p]].v[part[p]] = Version(p)] /\ part' = [part EXCEPT ![p] = @ + 1] /\ UNCHANGED pc
              ELSE /\ mem' = [mem EXCEPT ![at[p]].whole = TRUE] /\ pc' = [pc EXCEPT ![p] = "idle"] /\ UNCHANGED part
           /\ UNCHANGED <<name, at, made, killed, seen, from>>
Kill(p) == /\ p \notin killed /\ pc[p] # "idle" /\ killed' = killed \cup {p} /\ pc' = [pc EXCEPT ![p] = "dead"]
           /\ UNCHANGED <<name, mem, at, part, made, seen, from>>
Open(p) == /\ pc[p] = "idle" /\ name # None /\ at' = [at EXCEPT ![p] = name] /\ pc' = [pc EXCEPT ![p] = "look"]
           /\ UNCHANGED <<name, mem, part, made, killed, seen, from>>
Look(p) == /\ pc[p] = "look"
           /\ IF mem[at[p]].whole THEN pc' = [pc EXCEPT ![p] = "read"] /\ part' = [part EXCEPT ![p] = 1] /\ UNCHANGED at
              ELSE pc' = [pc EXCEPT ![p] = "idle"] /\ at' = [at EXCEPT ![p] = None] /\ UNCHANGED part
           /\ UNCHANGED <<name, mem, made, killed, seen, from>>
Read(p) == /\ pc[p] = "read"
           /\ IF part[p] <= Parts THEN from' = [from EXCEPT ![p][part[p]] = mem[at[p]].v[part[p]]] /\ part' = [part EXCEPT ![p] = @ + 1] /\ UNCHANGED <<pc, seen>>
              ELSE pc' = [pc EXCEPT ![p] = "done"] /\ seen' = [seen EXCEPT ![p] = at[p]] /\ UNCHANGED <<part, from>>
           /\ UNCHANGED <<name, mem, at, made, killed>>
\* a loader drops what it holds and may load again
Drop(p) == /\ pc[p] = "done" /\ pc' = [pc EXCEPT ![p] = "idle"] /\ at' = [at EXCEPT ![p] = None]
           /\ UNCHANGED <<name, mem, part, made, killed, seen, from>>
Next == (\E p \in Savers : Unlink(p) \/ Create(p) \/ Fill(p) \/ Kill(p)) \/ \E p \in Loaders : Open(p) \/ Look(p) \/ Read(p) \/ Drop(p)
Spec == Init /\ [][Next]_vars
\* a load gives one save's parts
WholeLoads == \A p \in Loaders : pc[p] = "done" => \A k \in 1..Parts : from[p][k] = from[p][1] /\ from[p][k] # 0
\* what is held reads as it was loaded
HeldStays == \A p \in Loaders : pc[p] = "done" => \A k \in 1..Parts : mem[at[p]].v[k] = from[p][k]
NeverBack == \A p \in Loaders : pc[p] \in {"read", "done"} => at[p] >= seen[p]
\* after the last save is over, its contents are there
LastStands == (Cardinality(Savers) = 1 /\ killed = {} /\ \A p \in Savers : pc[p] = "idle" /\ made[p] > 0) =>
                 name # None /\ mem[name].whole /\ \A p \in Savers : \A k \in 1..Parts : mem[name].v[k] = Version(p)
Published == [][\A b \in DOMAIN mem : mem[b].whole /\ Publishing => mem'[b] = mem[b]]_vars
=============================================================================
