------------------------------ MODULE UnaryMC ------------------------------
(* Design model of walking a two-dimensional view: input and output each have a stride per dimension (row major, column major, with gaps,
   or repeated with stride 0). One flat loop is used where a single stride covers the view, else one inner loop per row or column, into an
   output that is contiguous. The walk is only allowed where both arrays are walked in the same element order; then every
   element's result lands at its own position. Also laws of rounding. *)
EXTENDS Unary
CONSTANTS MaxDim
VARIABLES R, C, in, outMajor, step, cells
vars == <<R, C, in, outMajor, step, cells>>
\* strides <<s0, s1>> of the input, in elements
Layouts(r, c) == {<<c, 1>>, <<1, r>>, <<c + 1, 1>>, <<1, r + 1>>, <<2 * c, 2>>, <<-c, 1>>, <<-c, -1>>, <<0, 1>>, <<1, 0>>, <<0, 0>>}
Init == /\ R \in 1..MaxDim /\ C \in 1..MaxDim /\ in \in Layouts(R, C) /\ outMajor \in {"row", "col"}
        /\ step = 0 /\ cells = [k \in 0..(R * C - 1) |-> <<>>]
\* the library's view of the input: direction 0 = one stride covers everything
RowMajorIn == IF R = 1 \/ C = 1 THEN TRUE ELSE AbsI(in[2]) <= AbsI(in[1])
Stride == IF R = 1 /\ C = 1 THEN 1 ELSE IF R = 1 THEN in[2] ELSE IF C = 1 THEN in[1] ELSE IF RowMajorIn THEN in[2] ELSE in[1]
Direction == IF R = 1 \/ C = 1 THEN 0
             ELSE IF RowMajorIn THEN (IF in[2] * C = in[1] THEN 0 ELSE 1)
             ELSE (IF in[1] * R = in[2] THEN 0 ELSE -1)
Allowed == R = 1 \/ C = 1 \/ (RowMajorIn <=> outMajor = "row")
\* input offset read, and output cell written, at a step
ReadAt(k) == IF Direction = 0 THEN k * Stride
             ELSE IF Direction = 1 THEN (k \div C) * in[1] + (k % C) * Stride
             ELSE (k \div R) * in[2] + (k % R) * Stride
Next == /\ Allowed /\ step < R * C /\ step' = step + 1
        /\ cells' = [cells EXCEPT ![step] = <<ReadAt(step)>>]
        /\ UNCHANGED <<R, C, in, outMajor>>
Spec == Init /\ [][Next]_vars
Cell(i, j) == IF outMajor = "row" THEN i * C + j ELSE j * R + i
Right == (Allowed /\ step = R * C) =>
         \A i \in 0..(R - 1), j \in 0..(C - 1) : cells[Cell(i, j)] = <<i * in[1] + j * in[2]>>

X == -40..40
ASSUME \A x \in X, u \in {1, 2, 4} :
    /\ Rounded("floor", x, u) <= x /\ x < Rounded("floor", x, u) + u /\ Rounded("floor", x, u) % u = 0
    /\ Rounded("ceil", x, u) >= x /\ x > Rounded("ceil", x, u) - u /\ Rounded("ceil", x, u) = -Rounded("floor", -x, u)
    /\ AbsI(Rounded("trunc", x, u)) <= AbsI(x) /\ Rounded("trunc", -x, u) = -Rounded("trunc", x, u)
    /\ 2 * AbsI(Rounded("round", x, u) - x) <= u /\ Rounded("round", -x, u) = -Rounded("round", x, u)
    /\ Rounded("round", Rounded("floor", x, u), u) = Rounded("floor", x, u)
ASSUME \A x \in X \cup {INV, PINF, NINF}, s \in BOOLEAN, f \in {"nan", "inf", "finite", "normal"} :
    Test("is" \o f, "f8", x, s) + Test("isnot" \o f, "f8", x, s) = 1
=============================================================================
