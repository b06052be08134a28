-------------------------------- MODULE Cuts --------------------------------
(* Values put between edges.  Values and edges are coded by their rank, so only their order matters; INV is the invalid (NaN),
   PINF and NINF the infinities.  Edges e are in ascending order. *)
EXTENDS Codes
LOCAL INSTANCE Sequences

Ascending(e) == \A k \in 1..(Len(e) - 1) : e[k] <= e[k + 1]
Distinct(e) == \A k \in 1..(Len(e) - 1) : e[k] < e[k + 1]
Bad(v) == v = INV \/ v = PINF \/ v = NINF

\* bin of v, 0 for none: bin r holds the values above edge r and up to edge r+1, the first also its lower edge
InBin(e, v, r) == r \in 1..(Len(e) - 1) /\ v <= e[r + 1] /\ (e[r] < v \/ (r = 1 /\ v = e[1]))
Outside(e, v) == Bad(v) \/ Len(e) = 0 \/ v < e[1] \/ v > e[Len(e)]
Binned(e, v, r) == IF Outside(e, v) THEN r = 0 ELSE InBin(e, v, r)
\* from a sorted order: 0 for the bad values, 1 for those outside, bins from 2 on
SortedBin(e, v, r) == IF Bad(v) THEN r = 0 ELSE IF Outside(e, v) THEN r = 1 ELSE InBin(e, v, r - 1)
\* how many edges are below v (left) or not above v (right); NaN is after everything
Below(e, v, r) == /\ r \in 0..Len(e)
                  /\ IF v = INV THEN r = Len(e) ELSE (r > 0 => e[r] < v) /\ (r < Len(e) => v <= e[r + 1])
NotAbove(e, v, r) == /\ r \in 0..Len(e)
                     /\ IF v = INV THEN r = Len(e) ELSE (r > 0 => e[r] <= v) /\ (r < Len(e) => v < e[r + 1])
Mode(m, e, v, r) == CASE m = "cut" -> Binned(e, v, r) [] m = "left" -> Below(e, v, r) [] m = "right" -> NotAbove(e, v, r) [] OTHER -> SortedBin(e, v, r)
Placed(m, e, v, r) ==
    /\ Ascending(e) /\ Len(r) = Len(v)
    /\ \A i \in 1..Len(v) : Mode(m, e, v[i], r[i])

\* bad values at the ends of a sorted order: floating kinds have NaN and both infinities, integers their invalid below (signed) or above (unsigned)
BadCounts(v, kind, r) ==
    LET n(x) == Cardinality({i \in 1..Len(v) : v[i] = x}) IN
    r = CASE kind = "f" -> <<n(INV), n(PINF), n(NINF)>>
          [] kind = "i" -> <<0, 0, n(INV)>>
          [] kind = "u" -> <<0, n(INV), 0>>
          [] OTHER -> <<0, 0, 0>>
=============================================================================
