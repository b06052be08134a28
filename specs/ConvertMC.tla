----------------------------- MODULE ConvertMC -----------------------------
(* The laws of the common type and of conversion, over every list of up to Max types and every boundary value;
   and the library's own way to find the common type (largest float, largest signed, largest unsigned seen so far, scanning once),
   run one list element at a time. *)
EXTENDS Convert
CONSTANTS Max
VARIABLES ks, i, fl, sg, un
vars == <<ks, i, fl, sg, un>>
Rank(k) == CASE k = "b1" -> 0 [] k = "i1" -> 1 [] k = "u1" -> 2 [] k = "i2" -> 3 [] k = "u2" -> 4 [] k = "i4" -> 5 [] k = "u4" -> 6
             [] k = "i8" -> 7 [] k = "u8" -> 8 [] k = "f4" -> 9 [] k = "f8" -> 10 [] OTHER -> -1
Name(n) == CHOOSE k \in Kinds : Rank(k) = n
Larger(a, k) == IF Rank(k) > a THEN Rank(k) ELSE a
Init == /\ ks \in UNION {[1..n -> Kinds] : n \in 1..Max} /\ i = 1 /\ fl = -1 /\ sg = -1 /\ un = -1
Next == /\ i <= Len(ks) /\ i' = i + 1
        /\ LET k == ks[i] IN
           /\ fl' = IF Float(k) THEN Larger(fl, k) ELSE fl
           /\ sg' = IF Signed(k) \/ k = "b1" THEN Larger(sg, k) ELSE sg
           /\ un' = IF Unsigned(k) THEN Larger(un, k) ELSE un
        /\ UNCHANGED ks
Spec == Init /\ [][Next]_vars
Scan == IF fl = 10 THEN "f8"
        ELSE IF fl = 9 THEN (IF sg > 3 \/ un > 4 THEN "f8" ELSE "f4")
        ELSE IF un = -1 THEN Name(sg)
        ELSE IF sg = -1 THEN Name(un)
        ELSE IF sg > un THEN Name(sg)
        ELSE IF un = 8 THEN "f8"
        ELSE Name(un + 1)
S == {ks[j] : j \in 1..Len(ks)}
AsSpecified == i > Len(ks) => Scan = Upcast(S)
\* nothing is lost in the common type, except that 64-bit integers may meet in f8
Law == LET t == Upcast(S) IN \A k \in S : Holds(t, k) \/ (t = "f8" /\ Wide(k))
Idempotent == Upcast(S \cup {Upcast(S)}) = Upcast(S)
\* into a type that holds it and back, every value is itself, invalids included
Values(k) == {0, 1} \cup (IF k = "b1" THEN {} ELSE {INV, 100}) \cup (IF Signed(k) \/ Float(k) THEN {-1, -100} ELSE {}) \cup (IF Float(k) THEN {PINF, NINF} ELSE {})
RoundTrip == \A k \in S, t \in Kinds : Holds(t, k) => \A v \in Values(k) : Conv(Conv(v, k, t, 1), t, k, 1) = v
=============================================================================
