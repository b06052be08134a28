-------------------------------- MODULE Ema --------------------------------
(* Per-group recurrences (EmaAll32).  Rows of group 0 are excluded: their answer is the invalid and they touch nothing.
   inc / rst are per-row 0/1 flags (all 1 / all 0 when there is no filter / reset).  hasInc and hasRst say whether the masks
   were given, which only matters for the decayed averages. *)
EXTENDS Codes

Lift(op(_, _), a, b) == IF a = INV \/ b = INV THEN INV ELSE op(a, b)
Plus(a, b) == Lift(LAMBDA x, y : x + y, a, b)
Times(a, b) == Lift(LAMBDA x, y : x * y, a, b)
SkipMin(a, b) == IF b = INV THEN a ELSE IF a = INV THEN b ELSE MinI(a, b)
SkipMax(a, b) == IF b = INV THEN a ELSE IF a = INV THEN b ELSE MaxI(a, b)
NanMin(a, b) == Lift(LAMBDA x, y : MinI(x, y), a, b)
NanMax(a, b) == Lift(LAMBDA x, y : MaxI(x, y), a, b)

(* Accumulating functions.  The state of a group is [v, any]: the running value, and whether any row was accepted. *)
Unit(fn) == CASE fn = "sum" -> 0 [] fn = "prod" -> 1 [] OTHER -> INV
Start(fn) == [v |-> Unit(fn), any |-> FALSE]
Accept(fn, s, x) ==
    [any |-> TRUE,
     v |-> CASE fn = "sum" -> Plus(s.v, x)
             [] fn = "prod" -> Times(s.v, x)
             [] fn = "nanmin" -> SkipMin(s.v, x)
             [] fn = "nanmax" -> SkipMax(s.v, x)
             [] fn = "min" -> IF s.any THEN NanMin(s.v, x) ELSE x
             [] fn = "max" -> IF s.any THEN NanMax(s.v, x) ELSE x]
StepCum(fn, s, x, inc, rst) == IF inc = 0 THEN s ELSE Accept(fn, IF rst = 1 THEN Start(fn) ELSE s, x)

\* the definition: a row's answer is the function over the accepted rows of its group since the last accepted reset
Since(g, inc, rst, i) ==
    LET mine == {j \in 1..i : g[j] = g[i] /\ inc[j] = 1}
        last == {j \in mine : rst[j] = 1}
        from == IF last = {} THEN 1 ELSE CHOOSE j \in last : \A k \in last : k <= j
    IN {j \in mine : j >= from}
OverSet(fn, x, S) == FoldIdx(LAMBDA s, j : IF j \in S THEN Accept(fn, s, x[j]) ELSE s, Start(fn), 1, Len(x)).v
CumRow(fn, x, g, inc, rst, i) == IF g[i] = 0 THEN INV ELSE OverSet(fn, x, Since(g, inc, rst, i))
CumDefinition(fn, x, g, inc, rst, out) ==
    /\ Len(out) = Len(x) /\ \A i \in 1..Len(x) : out[i] = CumRow(fn, x, g, inc, rst, i)

\* the same by one pass with a state per group (equivalent by EmaMC): linear
CumAnswer(fn, x, g, nb, inc, rst, out) ==
    /\ Len(out) = Len(x)
    /\ FoldIdx(LAMBDA a, i :
            IF ~a.ok THEN a
            ELSE IF g[i] = 0 THEN [a EXCEPT !.ok = out[i] = INV]
            ELSE LET s == StepCum(fn, a.st[g[i]], x[i], inc[i], rst[i]) IN
                 [ok |-> out[i] = s.v, st |-> [a.st EXCEPT ![g[i]] = s]],
            [ok |-> TRUE, st |-> [k \in 1..nb |-> Start(fn)]], 1, Len(x)).ok

\* the position of a row among the accepted rows of its group (0 for rows left out)
NthAnswer(g, nb, inc, out) ==
    /\ Len(out) = Len(g)
    /\ FoldIdx(LAMBDA a, i :
            IF ~a.ok THEN a
            ELSE IF g[i] = 0 \/ inc[i] = 0 THEN [a EXCEPT !.ok = out[i] = 0]
            ELSE [ok |-> out[i] = a.st[g[i]] + 1, st |-> [a.st EXCEPT ![g[i]] = @ + 1]],
            [ok |-> TRUE, st |-> [k \in 1..nb |-> 0]], 1, Len(g)).ok

(* Decayed averages in F-fold fixed point, F = 4096; a decay over d time units multiplies by 2^-d (a time unit is the half-life).
   Each row is checked against the recorded answer of its group's previous row, so rounding does not add up. *)
F == 4096
Half(p, d) == IF p = INV THEN INV ELSE IF d > 30 THEN 0 ELSE p \div (2 ^ d)
Near(a, b) == IF a = INV \/ b = INV THEN a = b ELSE AbsI(a - b) <= 3
Fix(x) == IF x = INV THEN INV ELSE F * x

\* value + last * 2^-(t - last time); a row left out counts as value 0; a reset forgets the past
DecayNext(s, x, t, inc, rst) ==
    Plus(Fix(IF inc = 1 THEN x ELSE 0), IF s.no \/ (inc = 1 /\ rst = 1) THEN 0 ELSE Half(s.p, t - s.t))
\* value * (1 - w) + last * w with w = 2^-(t - last time), 0 for the group's first row
Mix(v, p, d) == Plus(Plus(Fix(v), IF v = INV THEN INV ELSE -Half(Fix(v), d)), Half(p, d))
NormalNext(s, x, t, inc, rst, hasRst) ==
    IF inc = 1 /\ rst = 1 THEN Mix(x, 0, t)
    ELSE IF inc = 0 /\ hasRst = 1 THEN s.p            \* with a reset mask, rows left out repeat the average
    ELSE LET v == IF inc = 1 THEN x ELSE s.v IN      \* without one, they repeat the last accepted value
         IF s.no \/ t < s.t THEN Mix(v, s.p, 31) ELSE Mix(v, s.p, t - s.t)   \* time going backwards forgets the past
\* value * (1 - k/8) + last * k/8; rows left out count as value 0; the past starts as the group's first value
WeightedNext(s, x, inc, rst, k) ==
    LET v == IF inc = 1 THEN x ELSE 0
        p == IF inc = 1 /\ rst = 1 THEN 0 ELSE s.p
    IN Plus(IF v = INV THEN INV ELSE (Fix(v) * (8 - k)) \div 8, IF p = INV THEN INV ELSE (p \div 8) * k + ((p % 8) * k) \div 8)

(* State of a group: p = last average, t = its time, v = last accepted value, no = no row has set a time yet. *)
EmaStart(fn, x, g, nb) ==
    LET first == FoldIdx(LAMBDA f, j : [f EXCEPT ![g[Len(x) + 1 - j] + 1] = x[Len(x) + 1 - j]], [k \in 1..(nb + 1) |-> 0], 1, Len(x)) IN
    [k \in 1..nb |-> [p |-> IF fn = "decay" THEN 0 ELSE Fix(first[k + 1]), t |-> 0, v |-> 0, no |-> TRUE]]
EmaAnswer(fn, x, g, nb, inc, rst, hasRst, t, k, out) ==
    /\ Len(out) = Len(x)
    /\ FoldIdx(LAMBDA a, i :
            IF ~a.ok THEN a
            ELSE IF g[i] = 0 THEN [a EXCEPT !.ok = out[i] = INV]
            ELSE LET s == a.st[g[i]]
                     e == CASE fn = "decay" -> DecayNext(s, x[i], t[i], inc[i], rst[i])
                            [] fn = "normal" -> NormalNext(s, x[i], t[i], inc[i], rst[i], hasRst)
                            [] fn = "weighted" -> WeightedNext(s, x[i], inc[i], rst[i], k)
                     moved == fn # "normal" \/ inc[i] = 1 \/ hasRst = 0
                 IN [ok |-> Near(out[i], e),
                     st |-> [a.st EXCEPT ![g[i]] =
                                IF moved THEN [p |-> out[i], t |-> t[i], v |-> IF inc[i] = 1 THEN x[i] ELSE s.v, no |-> FALSE] ELSE s]],
            [ok |-> TRUE, st |-> EmaStart(fn, x, g, nb)], 1, Len(x)).ok
=============================================================================
