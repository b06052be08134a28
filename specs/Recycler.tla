------------------------------ MODULE Recycler ------------------------------
(* Arrays, views and buffers of one process, the memory under them, and the cache of dead arrays' memory.
   A handle is anything through which a program can reach memory: an array, a view or a buffer.  Its memory is
   m = [h, l, n]: n bytes at h * 2^24 + l (addresses exceed TLC's integers).  Handles of one root share memory
   by design; memory of different roots never overlaps while both are reachable.  Every handle's memory is filled with one value. *)
EXTENDS Integers, Sequences, FiniteSets
W24 == 16777216
Overlap(a, b) ==
    /\ a.n > 0 /\ b.n > 0
    /\ a.h - b.h \in -60..60
    /\ LET d == (a.h - b.h) * W24 + (a.l - b.l) IN d < b.n /\ -d < a.n
\* live: the reachable handles' ids; of: what each is; on / age: the cache's switches; held: upper bound of cached arrays
Empty0 == [live |-> {}, of |-> <<>>, on |-> TRUE, age |-> TRUE, held |-> 0, hits |-> 0, heads |-> -1]
Of(s, i) == s.of[i]
Roots(s) == {Of(s, i).root : i \in s.live}
\* a new array must be what was asked for and may not touch anything reachable
Fresh(s, r, want) ==
    /\ r.t = want.t /\ r.n = want.n /\ r.good = 1 /\ r.attrs = 0
    /\ \A i \in s.live : ~Overlap(r.m, Of(s, i).m)
\* what the driver reads back through every reachable handle
Seen(s, see) ==
    /\ {see[k][1] : k \in DOMAIN see} = s.live /\ Len(see) = Cardinality(s.live)
    /\ \A k \in DOMAIN see : see[k][2] = Of(s, see[k][1]).v
Add(s, id, root, v, m, elig) == [s EXCEPT !.live = @ \cup {id},
    !.of = [i \in (DOMAIN @) \cup {id} |-> IF i = id THEN [root |-> root, v |-> v, m |-> m, elig |-> elig] ELSE @[i]]]
Last(s, id) == \A i \in s.live \ {id} : Of(s, i).root # Of(s, id).root
Drop(s, id) == [s EXCEPT !.live = @ \ {id}, !.held = IF Last(s, id) /\ Of(s, id).elig = 1 /\ s.on /\ s.age THEN @ + 1 ELSE @]
Paint(s, id, v) == [s EXCEPT !.of = [i \in DOMAIN @ |-> IF @[i].root = @[id].root THEN [@[i] EXCEPT !.v = v] ELSE @[i]]]
\* the state after an event, and whether the event was allowed
After(s, e) ==
    CASE e.op = "make" -> Add(s, e.a.id, e.a.id, e.a.v, e.r.m, e.a.elig)
      [] e.op = "alloc" -> IF e.r.none = 1 THEN s ELSE Add(s, e.a.id, e.a.id, e.a.v, e.r.m, 1)
      \* a computation may make copies of its own, which die within it
      [] e.op = "compute" -> [Add(s, e.a.id, e.a.id, e.r.v, e.r.m, 1) EXCEPT !.held = @ + 3]
      [] e.op = "view" -> Add(s, e.a.id, Of(s, e.a.of).root, Of(s, e.a.of).v, e.r.m, Of(s, e.a.of).elig)
      [] e.op = "fill" -> Paint(s, e.a.id, e.a.v)
      [] e.op = "drop" -> Drop(s, e.a.id)
      [] e.op = "switch" -> [s EXCEPT !.on = e.a.on = 1]
      [] e.op = "age" -> [s EXCEPT !.age = e.a.n > 0]
      [] e.op = "collect" -> IF e.a.all = 1 THEN [s EXCEPT !.held = 0, !.hits = e.r.hits] ELSE [s EXCEPT !.hits = e.r.hits]
      [] OTHER -> s
Inside(m, o) == m.n = 0 \/ LET d == (m.h - o.h) * W24 + (m.l - o.l) IN m.h - o.h \in 0..60 /\ d >= 0 /\ d + m.n <= o.n
Legal(s, e) ==
    CASE e.op = "make" -> Fresh(s, e.r, e.a)
      [] e.op = "alloc" -> IF e.r.none = 1 THEN e.a.may = 1 ELSE Fresh(s, e.r, e.a)
      [] e.op = "compute" -> Fresh(s, e.r, e.a) /\ e.r.v = e.a.v
      [] e.op = "view" -> TRUE
      [] e.op = "fill" -> TRUE
      \* memory that cannot be cached is gone with its last handle; an explicit request never takes a reachable array
      [] e.op = "drop" -> (Last(s, e.a.id) /\ (Of(s, e.a.id).elig = 0 \/ ~s.on \/ ~s.age)) => e.r.dead = 1
      [] e.op = "request" -> e.r = 0
      [] e.op = "switch" -> e.r = 1
      [] e.op = "age" -> (e.r > 0) = s.age
      \* the cache holds no more than what died; emptying it frees all of it, once
      [] e.op = "collect" -> /\ e.r.held >= 0 /\ e.r.held <= s.held /\ e.r.hits >= s.hits
                             /\ e.r.gone = (IF e.a.all = 1 THEN e.r.held ELSE 0)
                             /\ e.a.all = 1 => e.r.zombies = 0
      [] OTHER -> FALSE
=============================================================================
