----------------------------- MODULE RollingMC -----------------------------
(* Design model of the incremental rolling window: each step adds the entering value, removes the leaving one, and must keep
   sum and count equal to the definition over the window; and two heaps split at the quantile position answer the quantile. *)
EXTENDS GroupPack
CONSTANTS MaxLen, Vals, Windows, Quantiles
VARIABLES x, w, q, j, sum, cnt, low, high
Qs == {<<0, 1>>, <<1, 2>>, <<1, 1>>, <<1, 4>>}
vars == <<x, w, q, j, sum, cnt, low, high>>
\* low/high: positions in the window held by the two heaps (ordered by value, then position)
Before(a, b) == x[a] < x[b] \/ (x[a] = x[b] /\ a < b)
MaxOf(S) == CHOOSE a \in S : \A b \in S : a = b \/ Before(b, a)
MinOf(S) == CHOOSE a \in S : \A b \in S : a = b \/ Before(a, b)
Init == /\ x \in UNION {[1..n -> Vals] : n \in 1..MaxLen} /\ w \in Windows /\ q \in Quantiles
        /\ j = 0 /\ sum = 0 /\ cnt = 0 /\ low = {} /\ high = {}
\* after any change the low heap holds exactly the rows up to the quantile position
RECURSIVE Balance(_, _, _)
Balance(lo, hi, want) ==
    IF Cardinality(lo) < want THEN LET m == MinOf(hi) IN Balance(lo \cup {m}, hi \ {m}, want)
    ELSE IF Cardinality(lo) > want THEN LET m == MaxOf(lo) IN Balance(lo \ {m}, hi \cup {m}, want)
    ELSE <<lo, hi>>
Step ==
    /\ j < Len(x) /\ j' = j + 1
    /\ LET out == j + 1 - w
           leaves == out >= 1 /\ x[out] # INV
           enters == x[j + 1] # INV
           lo1 == IF out >= 1 THEN low \ {out} ELSE low
           hi1 == IF out >= 1 THEN high \ {out} ELSE high
           lo2 == IF enters /\ (IF hi1 = {} THEN TRUE ELSE Before(j + 1, MinOf(hi1))) THEN lo1 \cup {j + 1} ELSE lo1
           hi2 == IF enters /\ ~(j + 1 \in lo2) THEN hi1 \cup {j + 1} ELSE hi1
           n == Cardinality(lo2) + Cardinality(hi2)
           b == Balance(lo2, hi2, IF n = 0 THEN 0 ELSE ((n - 1) * q[1]) \div q[2] + 1)
       IN /\ sum' = sum + (IF enters THEN x[j + 1] ELSE 0) - (IF leaves THEN x[out] ELSE 0)
          /\ cnt' = cnt + (IF enters THEN 1 ELSE 0) - (IF leaves THEN 1 ELSE 0)
          /\ low' = b[1] /\ high' = b[2]
    /\ UNCHANGED <<x, w, q>>
Spec == Init /\ [][Step]_vars
Split == IF low = {} THEN INV
         ELSE LET n == Cardinality(low) + Cardinality(high) IN
              IF ((n - 1) * q[1]) % q[2] = 0 THEN 2 * x[MaxOf(low)] ELSE x[MaxOf(low)] + x[MinOf(high)]
Right == j > 0 =>
    /\ RollIs(201, LAMBDA i : x[i], Len(x), j, "f8", w, q, 1, sum)
    /\ RollIs(207, LAMBDA i : x[i], Len(x), j, "f8", w, q, 1, Split)
    /\ RollIs(206, LAMBDA i : x[i], Len(x), j, "f8", w, q, 60, IF cnt = 0 THEN INV ELSE (60 * sum) \div cnt)
=============================================================================
