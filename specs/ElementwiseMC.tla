---------------------------- MODULE ElementwiseMC ----------------------------
(* Design model of an elementwise kernel: the array is cut into chunks claimed by workers in any order; each chunk is done as
   vector blocks of V elements from its first element, then a tail, with one operand possibly a repeated scalar.  Every element is written
   exactly once with the operator applied to its own operands.  Also laws of the wrapped integer operators at a small width. *)
EXTENDS Elementwise
CONSTANTS MaxLen, V, Chunk, Workers, Vals, W
VARIABLES n, a, b, scalar, next, claimed, at, out, writes
vars == <<n, a, b, scalar, next, claimed, at, out, writes>>
Init == /\ n \in 0..MaxLen /\ scalar \in {"none", "first", "second"}
        /\ a \in [1..(IF scalar = "first" THEN 1 ELSE n) -> Vals]
        /\ b \in [1..(IF scalar = "second" THEN 1 ELSE n) -> Vals]
        /\ next = 0 /\ claimed = [w \in Workers |-> <<0, 0>>] /\ at = [w \in Workers |-> 0]
        /\ out = [i \in 1..n |-> ODD] /\ writes = [i \in 1..n |-> 0]
Idle(w) == at[w] = claimed[w][2]
Op(i) == IntOp("sub", At(a, i), At(b, i), W, TRUE)
Claim(w) == /\ Idle(w) /\ next < n
            /\ LET hi == MinI(n, next + Chunk) IN
               /\ next' = hi /\ claimed' = [claimed EXCEPT ![w] = <<next, hi>>] /\ at' = [at EXCEPT ![w] = next]
            /\ UNCHANGED <<n, a, b, scalar, out, writes>>
Step(w) == /\ ~Idle(w)
           /\ LET lo == at[w]  hi == claimed[w][2]
                  k == IF hi - lo >= V THEN V ELSE 1 IN
              /\ at' = [at EXCEPT ![w] = lo + k]
              /\ out' = [i \in 1..n |-> IF i > lo /\ i <= lo + k THEN Op(i) ELSE out[i]]
              /\ writes' = [i \in 1..n |-> IF i > lo /\ i <= lo + k THEN writes[i] + 1 ELSE writes[i]]
           /\ UNCHANGED <<n, a, b, scalar, next, claimed>>
Next == \E w \in Workers : Claim(w) \/ Step(w)
Spec == Init /\ [][Next]_vars
Done == next >= n /\ \A w \in Workers : Idle(w)
Once == \A i \in 1..n : writes[i] <= 1 /\ (writes[i] = 1 => out[i] = Elem("sub", "i1", W, At(a, i), At(b, i)))
Complete == Done => \A i \in 1..n : writes[i] = 1

R == -Pow2(W - 1)..(Pow2(W - 1) - 1)
U == 0..(Pow2(W) - 1)
ASSUME \A x, y \in R : /\ IntOp("sub", IntOp("add", x, y, W, TRUE), y, W, TRUE) = x
                       /\ y # 0 => Wrap(IntOp("floordiv", x, y, W, TRUE) * y + FloorModN(x, y), W, TRUE) = x
                       /\ IntOp("add", IntOp("and", x, y, W, TRUE), IntOp("or", x, y, W, TRUE), W, TRUE) = IntOp("add", x, y, W, TRUE)
                       /\ IntOp("xor", x, y, W, TRUE) = IntOp("or", IntOp("andnot", x, y, W, TRUE), IntOp("notand", x, y, W, TRUE), W, TRUE)
                       /\ IntOp("mul", x, y, W, TRUE) \in R
ASSUME \A x, y \in U : IntOp("add", x, y, W, FALSE) \in U /\ IntOp("mul", x, y, W, FALSE) \in U
                       /\ IntOp("sub", IntOp("add", x, y, W, FALSE), y, W, FALSE) = x
Kinds == {"b1", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8"}
ASSUME \A p, q \in Kinds : Common(p, q) = Common(q, p) /\ Common(p, p) = p /\ Common(p, Common(p, q)) = Common(p, q)
=============================================================================
