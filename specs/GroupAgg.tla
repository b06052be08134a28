------------------------------ MODULE GroupAgg ------------------------------
(* Aggregates per group.  g assigns each row a bin; bins lo..hi-1 are asked for; bin 0 holds the excluded rows. *)
EXTENDS Stats

(* p/off is a packing of the rows by bin: bin b's rows are p[off[b+1]+1..off[b+2]], each row exactly once, row order kept.
   It is offered by the trace and checked here (rows are 0-based, as riptide counts). *)
IsPacking(g, nbins, p, off) ==
    /\ Len(p) = Len(g) /\ Len(off) = nbins + 1
    /\ off[1] = 0 /\ off[nbins + 1] = Len(g) /\ NonDecreasing(off)
    /\ \A b \in 0..(nbins - 1) : \A i \in (off[b + 1] + 1)..off[b + 2] :
          /\ p[i] \in 0..(Len(g) - 1) /\ g[p[i] + 1] = b
          /\ i > off[b + 1] + 1 => p[i - 1] < p[i]

StatsOfBin(x, p, off, b, sq) == StatsOf(LAMBDA i : x[p[i] + 1], off[b + 1] + 1, off[b + 2], sq)

Is(fn, s, F, boolean, r) ==
    CASE fn = 0 -> SumIs(s, FALSE, r) [] fn = 50 -> SumIs(s, TRUE, r)
      [] fn = 1 -> MeanIs(s, FALSE, F, r) [] fn = 51 -> MeanIs(s, TRUE, F, r)
      [] fn = 2 -> (IF boolean /\ s.n = 0 THEN TRUE ELSE MinIs(s, FALSE, r))
      [] fn = 52 -> (IF boolean /\ s.n = 0 THEN TRUE ELSE MinIs(s, TRUE, r))
      [] fn = 3 -> (IF boolean /\ s.n = 0 THEN TRUE ELSE MaxIs(s, FALSE, r))
      [] fn = 53 -> (IF boolean /\ s.n = 0 THEN TRUE ELSE MaxIs(s, TRUE, r))
      [] fn = 4 -> VarIs(s, FALSE, F, 1, r) [] fn = 54 -> VarIs(s, TRUE, F, 1, r)
      [] fn = 5 -> StdIs(s, FALSE, F, 1, r) [] fn = 55 -> StdIs(s, TRUE, F, 1, r)
      [] OTHER -> FALSE

\* out lists bins lo..hi-1
AggAnswer(fn, x, g, nbins, p, off, lo, hi, F, boolean, out) ==
    /\ IsPacking(g, nbins, p, off)
    /\ Len(out) = hi - lo
    /\ \A b \in lo..(hi - 1) : Is(fn, StatsOfBin(x, p, off, b, fn \in {4, 5, 54, 55}), F, boolean, out[b - lo + 1])
=============================================================================
