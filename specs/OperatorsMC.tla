---------------------------- MODULE OperatorsMC ----------------------------
(* Laws that tie the ways of writing an operation together, on small numbers of every type: operands swap, comparisons mirror,
   a scalar behaves like the array filled with it, powers are repeated products, shifts are products with powers of two. *)
EXTENDS Operators
VARIABLES ka, kb, x, y
Ks == {"b1", "i1", "u1", "i4", "u8", "f4", "f8"}
In(k) == IF k = "b1" \/ k = "pb" THEN 0..1 ELSE IF Unsigned(k) THEN 0..5 ELSE IF Float(k) \/ k = "pf" THEN (-4..4) \cup {INV} ELSE -4..4
Init == /\ ka \in Ks /\ kb \in Ks \cup {"pi", "pf", "pb"} /\ x \in In(ka) /\ y \in In(kb)
Next == UNCHANGED <<ka, kb, x, y>>
K == Kinds2(ka, kb)
C == Common(K[1], K[2])
Swap == /\ Common(K[1], K[2]) = Common(K[2], K[1])
        /\ \A f \in {"add", "mul"} : Op(f, C, x, y) = Op(f, C, y, x)
Mirror == /\ Op("lt", C, x, y) = Op("gt", C, y, x) /\ Op("le", C, x, y) = Op("ge", C, y, x)
          /\ Op("eq", C, x, y) + Op("ne", C, x, y) = 1
          /\ Op("lt", C, x, y) + Op("eq", C, x, y) = Op("le", C, x, y)
Division == (C # "b1" /\ y # 0 /\ x # INV /\ y # INV /\ ~IsInt(C)) => y * Op("floordiv", C, x, y) + Op("mod", C, x, y) = x
Powers == C # "b1" /\ x # INV => /\ Op("pow", C, x, 2) = Op("mul", C, x, x) /\ Op("pow", C, x, 3) = Op("mul", C, Op("mul", C, x, x), x)
Shifts == IsInt(C) /\ y \in 0..5 => /\ Op("shl", C, x, y) = x * Pow2(y) /\ Op("shr", C, Op("shl", C, x, y), y) = x
Bits16 == IsInt(C) /\ (Signed(C) \/ (x >= 0 /\ y >= 0)) => /\ Op("and", C, x, y) + Op("or", C, x, y) = x + y /\ Op("xor", C, Op("xor", C, x, y), y) = x
=============================================================================
