-------------------------- MODULE MembershipTrace --------------------------
EXTENDS Membership, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Rows(cols) == IF Len(cols) = 1 THEN cols[1]
              ELSE TLCEval([i \in 1..Len(cols[1]) |-> [c \in 1..Len(cols) |-> cols[c][i]]])
MultiMember(a, r) ==
    LET A == Rows(a.a) B == Rows(a.b) IN
    /\ Len(r.found) = Len(A) /\ Len(r.idx) = Len(A)
    /\ \A i \in 1..Len(A) :
        LET m == {j \in 1..Len(B) : B[j] = A[i]} IN
        IF m = {} THEN r.found[i] = 0 /\ r.idx[i] = INV
        ELSE r.found[i] = 1 /\ r.idx[i] + 1 \in m /\ \A j \in m : r.idx[i] < j
Explains(e) ==
    IF e.st # "ok" THEN FALSE ELSE
    CASE e.op = "begin" -> TRUE
      [] e.op = "ismember" -> IsMemberAnswer(e.a.a, e.a.b, e.a.nan, e.r.found, e.r.idx)
      [] e.op = "multi" -> MultiMember(e.a, e.r)
      [] e.op = "categorical" -> CategoricalAnswer(e.a.a, e.a.b, e.a.nan, e.r.missed, e.r.idx)
      [] e.op = "densemember" -> DistinctMemberAnswer(Rows(e.a.a), Rows(e.a.b), e.r.found, e.r.idx)
      [] e.op = "densecategorical" -> DistinctCategoricalAnswer(Rows(e.a.a), Rows(e.a.b), e.r.missed, e.r.idx)
      [] OTHER -> FALSE
Init == l = 1
Next == /\ l <= Len(Trace) /\ l' = l + 1
        /\ IF Explains(Trace[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>)
=============================================================================
