------------------------------- MODULE Masked -------------------------------
(* Writes through a mask, and selection between two branches.  before/after: the destination; INV: the invalid of its type. *)
EXTENDS Codes
LOCAL INSTANCE Sequences

IsCount(m, cum) ==
    /\ Len(cum) = Len(m)
    /\ \A i \in 1..Len(m) : m[i] \in {0, 1} /\ cum[i] = m[i] + (IF i = 1 THEN 0 ELSE cum[i - 1])
Total(cum) == IF Len(cum) = 0 THEN 0 ELSE cum[Len(cum)]

\* dest[mask] = v : one value for all, or one per marked element in order
Assigned(before, m, cum, v, after) ==
    /\ IsCount(m, cum)
    /\ Len(m) = Len(before) /\ Len(after) = Len(before)
    /\ Len(v) \in {1, Total(cum)}
    /\ \A i \in 1..Len(m) :
         after[i] = IF m[i] = 0 THEN before[i] ELSE IF Len(v) = 1 THEN v[1] ELSE v[cum[i]]

\* a value as an element of a destination that is boolean (b = 1) or not
Stored(x, b) == IF b = 1 THEN (IF x = 0 THEN 0 ELSE 1) ELSE x
\* dest[mask] = v[mask], each value converted to the destination's type
PutWhere(before, m, v, b, after) ==
    /\ Len(m) = Len(before) /\ Len(v) = Len(before) /\ Len(after) = Len(before)
    /\ \A i \in 1..Len(m) : after[i] = IF m[i] = 0 THEN before[i] ELSE Stored(v[i], b)

\* x and y of length one stand for every element
At(s, i) == IF Len(s) = 1 THEN s[1] ELSE s[i]
Selected(m, x, y, r) ==
    /\ Len(r) = Len(m)
    /\ \A i \in 1..Len(m) : r[i] = IF m[i] = 1 THEN At(x, i) ELSE At(y, i)
=============================================================================
