------------------------------- MODULE EmaMC -------------------------------
(* Design model: one pass over the rows with a running state per group, columns processed by several workers in any
   interleaving, each with its own state.  Every finished column satisfies the per-group definition. *)
EXTENDS Ema
CONSTANTS MaxLen, Vals, Groups, Fns, Cols
VARIABLES x, g, inc, rst, fn, at, st, out
vars == <<x, g, inc, rst, fn, at, st, out>>
Init == /\ \E n \in 0..MaxLen : /\ x \in [Cols -> [1..n -> Vals]] /\ g \in [1..n -> 0..Groups]
                                /\ inc \in [1..n -> {0, 1}] /\ rst \in [1..n -> {0, 1}]
        /\ fn \in Fns
        /\ at = [c \in Cols |-> 1] /\ st = [c \in Cols |-> [k \in 1..Groups |-> Start(fn)]] /\ out = [c \in Cols |-> <<>>]
Row(c) == LET i == at[c] IN
    /\ i <= Len(g) /\ at' = [at EXCEPT ![c] = i + 1]
    /\ IF g[i] = 0 THEN out' = [out EXCEPT ![c] = Append(@, INV)] /\ UNCHANGED st
       ELSE LET s == StepCum(fn, st[c][g[i]], x[c][i], inc[i], rst[i]) IN
            st' = [st EXCEPT ![c][g[i]] = s] /\ out' = [out EXCEPT ![c] = Append(@, s.v)]
    /\ UNCHANGED <<x, g, inc, rst, fn>>
Next == \E c \in Cols : Row(c)
Spec == Init /\ [][Next]_vars
Right == \A c \in Cols : at[c] > Len(g) => /\ CumDefinition(fn, x[c], g, inc, rst, out[c])
                                           /\ CumAnswer(fn, x[c], g, Groups, inc, rst, out[c])
=============================================================================
