------------------------------- MODULE CutsMC -------------------------------
(* Design of the edge search: bisection with its early exits and final edge test, for every ascending list of up to N edges and every
   value on, between and around them, in the three modes; and the scan over a sorted order. *)
EXTENDS Cuts, Sequences
CONSTANTS N, V
VARIABLES mode, e, v, first, last, done, steps
vars == <<mode, e, v, first, last, done, steps>>
Lists(strict) == {s \in UNION {[1..n -> 1..V] : n \in 1..N} : \A k \in 1..(Len(s) - 1) : IF strict THEN s[k] < s[k + 1] ELSE s[k] <= s[k + 1]}
\* edges are even numbers, so that odd ones lie between
Init == /\ mode \in {"cut", "left", "right"}
        /\ e \in Lists(mode = "cut") /\ v \in 1..(2 * V + 1)
        /\ first = 0 /\ last = Len(e) - 1 /\ done = 0 /\ steps = 0
E(k) == 2 * e[k + 1]
EE == [k \in 1..Len(e) |-> 2 * e[k]]
Lo == E(0)
Hi == E(Len(e) - 1)
Enter == CASE mode = "cut" -> v >= Lo /\ v <= Hi [] mode = "left" -> v > Lo /\ v <= Hi [] OTHER -> v >= Lo /\ v < Hi
Mid == (first + last) \div 2
Next == /\ done = 0 /\ Enter /\ UNCHANGED <<mode, e, v>> /\ steps' = steps + 1
        /\ LET x == E(Mid) IN
           CASE mode = "cut" -> IF x > v THEN /\ last' = Mid - 1 /\ first' = first /\ done' = (IF first >= Mid - 1 THEN 1 ELSE 0)
                                ELSE IF x < v THEN /\ first' = Mid + 1 /\ last' = last /\ done' = (IF Mid + 1 >= last THEN 1 ELSE 0)
                                ELSE first' = Mid /\ last' = last /\ done' = 1
             [] OTHER -> IF (IF mode = "left" THEN x >= v ELSE x > v)
                         THEN /\ last' = Mid - 1 /\ first' = first /\ done' = (IF first > Mid - 1 THEN 1 ELSE 0)
                         ELSE /\ first' = Mid + 1 /\ last' = last /\ done' = (IF Mid + 1 > last THEN 1 ELSE 0)
Spec == Init /\ [][Next]_vars
Result == IF ~Enter THEN (CASE mode = "cut" -> 0 [] mode = "left" -> (IF v <= Lo THEN 0 ELSE Len(e)) [] OTHER -> (IF v < Lo THEN 0 ELSE Len(e)))
          ELSE IF mode # "cut" THEN first
          ELSE IF first > 0 THEN (IF v <= E(first) THEN first ELSE first + 1) ELSE 1
\* a single edge bounds no bin, except that the value on it is given bin 1
Correct == (done = 1 \/ ~Enter) => (mode = "cut" /\ Len(e) = 1) \/ Mode(mode, EE, v, Result)
InRange == done = 0 /\ Enter => Mid \in 0..(Len(e) - 1)
Ends == steps <= Len(e) + 1
=============================================================================
