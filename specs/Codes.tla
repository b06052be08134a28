------------------------------- MODULE Codes -------------------------------
(* The integer coding of values in recorded traces (see harness/recorder.py) and small sequence helpers. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE Folds

INV == 2000000000     \* the invalid of its type: NaN, or the integer sentinel
PINF == 1999999999
NINF == -1999999999
ODD == 1999999998   \* a value the trace's coding has no name for

IsNum(x) == x > -1000000001 /\ x < 1000000001

Bool(b) == IF b THEN 1 ELSE 0
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a

\* left fold of a sequence's positions lo..hi
FoldIdx(op(_, _), base, lo, hi) ==
    FoldLeft(LAMBDA acc, i : op(acc, i), base, [i \in 1..(IF hi < lo THEN 0 ELSE hi - lo + 1) |-> lo + i - 1])

FoldLeftSet(op(_, _), base, S) == FoldLeft(op, base, SetToSeq(S))

SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Count(s, P(_)) == FoldLeft(LAMBDA a, x : IF P(x) THEN a + 1 ELSE a, 0, s)
Range0(s) == {s[i] : i \in DOMAIN s}
StrictlyIncreasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
NonDecreasing(s) == \A i \in 1..(Len(s) - 1) : s[i] <= s[i + 1]
\* the positions 0..n-1 as riptide counts them, where P holds (ascending)
Pos0(n, P(_)) == SelectSeq([i \in 1..n |-> i - 1], LAMBDA k : P(k + 1))
=============================================================================
