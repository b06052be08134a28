------------------------------- MODULE Take -------------------------------
(* Reading rows of an array: by mask, by index, by permutation.  Positions are 0-based as the library counts them. *)
EXTENDS Codes

\* cum[i] = how many of the first i mask bytes are set, given with the answer and checked here (linear at any length)
IsCount(m, cum) ==
    /\ Len(cum) = Len(m)
    /\ \A i \in 1..Len(m) : m[i] \in {0, 1} /\ cum[i] = m[i] + (IF i = 1 THEN 0 ELSE cum[i - 1])
Total(cum) == IF Len(cum) = 0 THEN 0 ELSE cum[Len(cum)]

MaskTake(v, m, cum, r) ==
    /\ IsCount(m, cum)
    /\ Len(r) = Total(cum)
    /\ \A i \in 1..Len(m) : m[i] = 1 => r[cum[i]] = v[i]

TruePositions(m, cum, r) ==
    /\ IsCount(m, cum)
    /\ Len(r) = Total(cum)
    /\ \A i \in 1..Len(m) : m[i] = 1 => r[cum[i]] = i - 1

\* positions of True, then of False
BothPositions(m, cum, r, ntrue) ==
    /\ IsCount(m, cum)
    /\ ntrue = Total(cum) /\ Len(r) = Len(m)
    /\ \A i \in 1..Len(m) : r[IF m[i] = 1 THEN cum[i] ELSE ntrue + i - cum[i]] = i - 1

Addressed(n, k) == IF k >= 0 /\ k < n THEN k + 1 ELSE IF k < 0 /\ k >= -n THEN k + n + 1 ELSE 0
IndexTake(v, x, default, r) ==
    /\ Len(r) = Len(x)
    /\ \A i \in 1..Len(x) : LET p == Addressed(Len(v), x[i]) IN r[i] = IF p = 0 THEN default ELSE v[p]

Reordered(v, x, r) == Len(r) = Len(x) /\ \A i \in 1..Len(x) : r[i] = v[x[i] + 1]
Inverse(x, r) == Len(r) = Len(x) /\ \A i \in 1..Len(x) : r[x[i] + 1] = i - 1

\* part t of the keys is k[icut[t-1]+1 .. icut[t]], its dictionary starts at ucut[t-1]; key 0 stays 0
Rekeyed(k, u, ucut, icut, r) ==
    /\ Len(r) = Len(k)
    /\ \A t \in 1..Len(icut) :
         LET b == IF t = 1 THEN 0 ELSE ucut[t - 1] IN
         \A j \in ((IF t = 1 THEN 0 ELSE icut[t - 1]) + 1)..icut[t] :
             r[j] = IF k[j] <= 0 \/ k[j] > Len(u) - b THEN 0 ELSE u[b + k[j]]
    /\ \A j \in ((IF Len(icut) = 0 THEN 0 ELSE icut[Len(icut)]) + 1)..Len(k) : r[j] = k[j]
=============================================================================
