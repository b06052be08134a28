----------------------------- MODULE SdsDamage -----------------------------
(* Reading a damaged file: an error, or only items that were saved, as they were saved (name, type, shape, bytes). *)
EXTENDS Integers, Sequences
Saved(saved, x) == \E k \in 1..Len(saved) : saved[k] = x
Honest(saved, items) == \A k \in 1..Len(items) : Saved(saved, items[k])
ReadIs(st, saved, r) == \/ st = "err"
                        \/ st = "ok" /\ Honest(saved, r.items)
\* other bytes than an SDS file never read as one
NoFile(st, r) == st = "err" \/ (st = "ok" /\ r.items = <<>>)
=============================================================================
