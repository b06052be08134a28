------------------------------ MODULE Convert ------------------------------
(* Values moving between types.  A value is an integer number of units of 1/su; INV is the invalid of the type it is in
   (booleans have none), PINF and NINF the infinities of floating types. *)
EXTENDS Codes
LOCAL INSTANCE Sequences

Signed(k) == k \in {"i1", "i2", "i4", "i8"}
Unsigned(k) == k \in {"u1", "u2", "u4", "u8"}
Float(k) == k \in {"f4", "f8"}
Kinds == {"b1", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8"}
Width(k) == CASE k = "b1" -> 1 [] k \in {"i1", "u1"} -> 8 [] k \in {"i2", "u2"} -> 16 [] k \in {"i4", "u4", "f4"} -> 32 [] OTHER -> 64

Trunc(v, su) == IF v >= 0 THEN v \div su ELSE -((-v) \div su)
\* the value v of type k in type t
Conv(v, k, t, su) ==
    IF k = t THEN v
    ELSE IF t = "b1" THEN (IF v = 0 THEN 0 ELSE 1)
    ELSE IF v = INV THEN INV
    ELSE IF v = PINF \/ v = NINF THEN (IF Float(t) THEN v ELSE INV)
    ELSE IF Float(t) THEN v ELSE Trunc(v, su)
Converted(c, k, t, su, r) == /\ Len(r) = Len(c) /\ \A i \in 1..Len(c) : r[i] = Conv(c[i], k, t, su)

\* every value of k is a value of t (64-bit integers meet in f8 when there is no integer type for both)
Bits(k) == IF Signed(k) THEN Width(k) - 1 ELSE IF k = "f4" THEN 24 ELSE IF k = "f8" THEN 53 ELSE Width(k)
Holds(t, k) ==
    \/ t = k
    \/ Float(t) /\ Float(k) /\ Width(t) >= Width(k)
    \/ ~Float(k) /\ Bits(k) <= Bits(t) /\ (k = "b1" \/ Unsigned(k) \/ ~Unsigned(t)) /\ t # "b1"
Wide(k) == k \in {"i8", "u8"}

\* the type in which a set of types meets: the narrowest that holds all of them; booleans count as signed; f8 when there is none
Upcast(S) ==
    IF Cardinality(S) = 1 THEN CHOOSE k \in S : TRUE
    ELSE IF \E k \in S : Float(k)
    THEN IF \E k \in S : ~Holds("f4", k) THEN "f8" ELSE "f4"
    ELSE LET all == IF \A k \in S : Unsigned(k) THEN {"u1", "u2", "u4", "u8"} ELSE {"i1", "i2", "i4", "i8"}
             fits == {t \in all : \A k \in S : Holds(t, k)} IN
         IF fits = {} THEN "f8" ELSE CHOOSE t \in fits : \A u \in fits : Width(t) <= Width(u)

\* arrays one after the other in type t
Offsets(n, off) == /\ Len(off) = Len(n) + 1 /\ off[1] = 0 /\ \A j \in 1..Len(n) : off[j + 1] = off[j] + n[j]
Stacked(arrs, ks, t, off, r) ==
    /\ Offsets([j \in 1..Len(arrs) |-> Len(arrs[j])], off)
    /\ Len(r) = off[Len(off)]
    /\ \A j \in 1..Len(arrs) : \A i \in 1..Len(arrs[j]) : r[off[j] + i] = Conv(arrs[j][i], ks[j], t, 1)

\* rows moved by k places towards the front (k > 0) or the back (k < 0); rows with nothing to take stay
Shifted(c, k, r) ==
    /\ Len(r) = Len(c)
    /\ \A i \in 1..Len(c) : r[i] = IF i + k \in 1..Len(c) THEN c[i + k] ELSE c[i]
=============================================================================
