------------------------------ MODULE PoolSim ------------------------------
(* Random behaviours of the protocol, printed as the order in which the threads take their steps. *)
EXTENDS PoolMC, Sequences
VARIABLE order
SInit == Init /\ order = <<>>
SNext == \/ Main /\ order' = Append(order, 0)
         \/ \E t \in W : Worker(t) /\ order' = Append(order, t)
         \/ Interrupt /\ UNCHANGED order
Show == Finished /\ Len(order) > 0 => PrintT(<<"ORDER", order>>)
Stop == ~Finished
=============================================================================
