------------------------------ MODULE ArraysMC ------------------------------
(* The type chosen for a list holds every one of its items, whatever the order they come in, and no item changes by going through it. *)
EXTENDS Arrays
VARIABLE x
B(n) == [k |-> "b", v |-> <<n>>]
I(s, a, b, c) == [k |-> "i", v |-> <<s, a, b, c>>]
Items == {B(0), B(1), I(0, 0, 0, 0), I(1, 0, 0, 7), I(0, 9, 223372036, 854775807), I(0, 9, 223372036, 854775808), I(1, 9, 223372036, 854775808),
          I(1, 9, 223372036, 854775809), I(0, 18, 446744073, 709551615), I(0, 18, 446744073, 709551616), [k |-> "f", v |-> <<6>>], [k |-> "f", v |-> <<INV>>],
          [k |-> "s", v |-> <<65, 0>>], [k |-> "u", v |-> <<>>], [k |-> "o", v |-> <<1>>]}
Init == x = <<>>
Next == Len(x) < 3 /\ \E i \in Items : x' = Append(x, i)
Rank(t) == CASE t = "?" -> 0 [] t = "i8" -> 1 [] t = "u8" -> 1 [] t = "f8" -> 2 [] t = "S" -> 2 [] t = "left to numpy" -> 1 [] t = "U" -> 2 [] OTHER -> 3
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* the order of the items does not matter
Order == TypeOf(Rev(x)) = TypeOf(x)
\* more items never give a narrower type
Grows == Len(x) > 1 => Rank(TypeOf(SubSeq(x, 1, Len(x) - 1))) <= Rank(TypeOf(x))
\* integers and truth values keep their number
Exact == \A i \in 1..Len(x) : TypeOf(x) \in {"i8", "u8"} =>
            LET y == As(x[i], TypeOf(x)) IN IF x[i].k = "b" THEN y.v = <<0, 0, 0, x[i].v[1]>> ELSE y = x[i]
Same == TypeOf(x) = "O" => \A i \in 1..Len(x) : As(x[i], "O") = x[i]
=============================================================================
