----------------------------- MODULE Membership -----------------------------
(* Membership of each row of a in b, with the position of the first occurrence.  nan is the code of the key that equals
   nothing, not even itself (-1 when the key type has none, or when keys are compared as whole rows). *)
EXTENDS Codes

\* code -> position (0-based) of its first occurrence in b
FirstPos(b) == FoldIdx(LAMBDA f, j : [f EXCEPT ![b[Len(b) + 1 - j]] = Len(b) - j], [c \in Range0(b) |-> -1], 1, Len(b))

IsMemberAnswer(a, b, nan, found, idx) ==
    LET fp == TLCEval(FirstPos(b)) IN
    /\ Len(found) = Len(a) /\ Len(idx) = Len(a)
    /\ \A i \in 1..Len(a) :
         IF a[i] # nan /\ a[i] \in DOMAIN fp
         THEN found[i] = 1 /\ idx[i] = fp[a[i]]
         ELSE found[i] = 0 /\ idx[i] = INV

\* the variant for building categoricals: 1-based position, 0 for none, and whether anything was missing
CategoricalAnswer(a, b, nan, missed, idx) ==
    LET fp == TLCEval(FirstPos(b)) IN
    /\ Len(idx) = Len(a)
    /\ \A i \in 1..Len(a) : idx[i] = (IF a[i] # nan /\ a[i] \in DOMAIN fp THEN fp[a[i]] + 1 ELSE 0)
    /\ (missed # 0) = (\E i \in 1..Len(a) : idx[i] = 0)

\* the same when b's rows are all different (many distinct keys, single- or multi-column)
DistinctMemberAnswer(a, b, found, idx) ==
    LET B == TLCEval(Range0(b)) IN
    /\ Cardinality(B) = Len(b)
    /\ Len(found) = Len(a) /\ Len(idx) = Len(a)
    /\ \A i \in 1..Len(a) :
         IF a[i] \in B THEN /\ found[i] = 1
                            /\ idx[i] \in 0..(Len(b) - 1)
                            /\ b[idx[i] + 1] = a[i]
         ELSE found[i] = 0 /\ idx[i] = INV
DistinctCategoricalAnswer(a, b, missed, idx) ==
    LET B == TLCEval(Range0(b)) IN
    /\ Cardinality(B) = Len(b)
    /\ Len(idx) = Len(a)
    /\ \A i \in 1..Len(a) :
         IF a[i] \in B THEN idx[i] \in 1..Len(b) /\ b[idx[i]] = a[i] ELSE idx[i] = 0
    /\ (missed # 0) = (\E i \in 1..Len(a) : idx[i] = 0)
=============================================================================
