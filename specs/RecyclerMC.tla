----------------------------- MODULE RecyclerMC -----------------------------
(* The cache of dead arrays: every history of creating arrays, taking and dropping handles, the finaliser, reuse, eviction,
   collection and switching off, over Objs objects of Sizes sizes with Slots slots per size.  A handle carries the incarnation
   of the object it was taken from: two programs never share an object, whichever incarnation they hold. *)
EXTENDS Integers, FiniteSets
CONSTANTS Objs, Sizes, Slots, MaxInc, MaxRefs
O == 1..Objs
VARIABLES st,      \* "none", "live", "cached", "freed"
          sz, inc, fin,  \* size, incarnation, whether the finaliser ran
          refs,    \* refs[o][i]: handles taken from incarnation i of o (a weak reference can make one of a cached object)
          slot,    \* slot[z]: the cached objects of size z
          heads, tails, on
vars == <<st, sz, inc, fin, refs, slot, heads, tails, on>>
RECURSIVE Sum(_, _)
Sum(f, n) == IF n < 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Refs(o) == Sum(refs[o], MaxInc)
Cached == UNION {slot[z] : z \in 1..Sizes}
Init == /\ st = [o \in O |-> "none"] /\ sz = [o \in O |-> 1] /\ inc = [o \in O |-> 0] /\ fin = [o \in O |-> FALSE]
        /\ refs = [o \in O |-> [i \in 0..MaxInc |-> 0]] /\ slot = [z \in 1..Sizes |-> {}] /\ heads = 0 /\ tails = 0 /\ on = TRUE
Reusable(z) == {o \in slot[z] : Refs(o) = 0}
Hit(z) == \E o \in Reusable(z) :
    /\ inc[o] < MaxInc
    /\ slot' = [slot EXCEPT ![z] = @ \ {o}] /\ tails' = tails + 1
    /\ st' = [st EXCEPT ![o] = "live"] /\ inc' = [inc EXCEPT ![o] = @ + 1]
    /\ refs' = [refs EXCEPT ![o][inc[o] + 1] = 1] /\ UNCHANGED <<sz, fin, heads, on>>
Miss(z) == /\ Reusable(z) = {}
           /\ \E o \in O : st[o] = "none" /\ (\A p \in O : p < o => st[p] # "none")
                 /\ st' = [st EXCEPT ![o] = "live"] /\ sz' = [sz EXCEPT ![o] = z] /\ refs' = [refs EXCEPT ![o][0] = 1]
           /\ UNCHANGED <<inc, fin, slot, heads, tails, on>>
Alloc == \E z \in 1..Sizes : Hit(z) \/ Miss(z)
Share == \E o \in O : st[o] = "live" /\ Refs(o) > 0 /\ Refs(o) < MaxRefs
         /\ \E i \in 0..MaxInc : refs[o][i] > 0 /\ refs' = [refs EXCEPT ![o][i] = @ + 1]
         /\ UNCHANGED <<st, sz, inc, fin, slot, heads, tails, on>>
\* a weak reference reaches an object that died into the cache
Peek == \E o \in Cached : Refs(o) = 0 /\ refs' = [refs EXCEPT ![o][inc[o]] = 1] /\ UNCHANGED <<st, sz, inc, fin, slot, heads, tails, on>>
Release(o, i) == [refs EXCEPT ![o][i] = @ - 1]
Drop == \E o \in O, i \in 0..MaxInc :
    /\ refs[o][i] > 0 /\ refs' = Release(o, i)
    /\ IF Refs(o) > 1 \/ o \in Cached THEN UNCHANGED <<st, sz, inc, fin, slot, heads, tails, on>>
       ELSE IF fin[o] \/ ~on THEN st' = [st EXCEPT ![o] = "freed"] /\ UNCHANGED <<sz, inc, fin, slot, heads, tails, on>>
       ELSE /\ fin' = [fin EXCEPT ![o] = TRUE]
            /\ LET z == sz[o] IN
               IF Cardinality(slot[z]) < Slots
               THEN /\ slot' = [slot EXCEPT ![z] = @ \cup {o}] /\ heads' = heads + 1
                    /\ st' = [st EXCEPT ![o] = "cached"] /\ UNCHANGED <<sz, inc, tails, on>>
               ELSE \E v \in slot[z] :     \* the evicted object goes, or stays with whoever peeked at it
                    /\ (\E p \in slot[z] : Refs(p) > 0) => Refs(v) > 0
                    /\ slot' = [slot EXCEPT ![z] = (@ \ {v}) \cup {o}] /\ heads' = heads + 1 /\ tails' = tails + 1
                    /\ st' = [st EXCEPT ![o] = "cached", ![v] = IF Refs(v) > 0 THEN "live" ELSE "freed"] /\ UNCHANGED <<sz, inc, on>>
Collect == /\ Cached # {} /\ tails' = tails + Cardinality(Cached) /\ slot' = [z \in 1..Sizes |-> {}]
           /\ st' = [o \in O |-> IF o \in Cached THEN (IF Refs(o) > 0 THEN "live" ELSE "freed") ELSE st[o]]
           /\ UNCHANGED <<sz, inc, fin, refs, heads, on>>
Switch == on' = ~on /\ UNCHANGED <<st, sz, inc, fin, refs, slot, heads, tails>>
Next == Alloc \/ Share \/ Peek \/ Drop \/ Collect \/ Switch
\* no two incarnations of an object are held at once; what is reachable is neither freed nor handed out
OneOwner == \A o \in O : \A i, j \in 0..MaxInc : refs[o][i] > 0 /\ refs[o][j] > 0 => i = j
Alive == \A o \in O : Refs(o) > 0 => st[o] \in {"live", "cached"}
Counts == heads - tails = Cardinality(Cached) /\ \A z \in 1..Sizes : Cardinality(slot[z]) <= Slots
Slotted == \A o \in O : (st[o] = "cached") = (o \in Cached) /\ \A z \in 1..Sizes : o \in slot[z] => sz[o] = z
NoLeak == \A o \in O : st[o] = "live" => Refs(o) > 0
=============================================================================
