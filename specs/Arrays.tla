------------------------------ MODULE Arrays ------------------------------
(* Arrays made from lists, tuples, scalars and other arrays. An item is a record: k its kind ("b" truth value, "i" integer, "f" number,
   "s" bytes, "u" text, "o" any other object), v its value: b <<0 or 1>>; i sign and three digits in base 10^9; f four times the number;
   s and u the characters; o which object it is. *)
EXTENDS Codes

MaxI64 == <<9, 223372036, 854775807>>
MaxU64 == <<18, 446744073, 709551615>>
MaxI64p == <<9, 223372036, 854775808>>
Below(a, b) == \* <=, of magnitudes
    IF a[1] # b[1] THEN a[1] < b[1] ELSE IF a[2] # b[2] THEN a[2] < b[2] ELSE a[3] <= b[3]
Mag(x) == <<x.v[2], x.v[3], x.v[4]>>
InI64(x) == x.k = "b" \/ (IF x.v[1] = 1 THEN Below(Mag(x), MaxI64p) ELSE Below(Mag(x), MaxI64))
InU64(x) == x.k = "b" \/ (x.v[1] = 0 /\ Below(Mag(x), MaxU64))

Kinds(x) == {x[i].k : i \in 1..Len(x)}
\* the type of the array: the narrowest that holds every item (not decided here: integers some of which only int64 and some only uint64 holds)
TypeOf(x) ==
    LET K == Kinds(x) IN
    IF K = {} THEN "f8"
    ELSE IF K = {"b"} THEN "?"
    ELSE IF K \subseteq {"b", "i"} THEN
        IF \A i \in 1..Len(x) : InI64(x[i]) THEN "i8" ELSE IF \A i \in 1..Len(x) : InU64(x[i]) /\ ~InI64(x[i]) THEN "u8"
        ELSE IF \A i \in 1..Len(x) : InI64(x[i]) \/ InU64(x[i]) THEN "left to numpy" ELSE "O"
    ELSE IF K \subseteq {"b", "i", "f"} THEN IF \A i \in 1..Len(x) : x[i].k = "f" \/ InI64(x[i]) \/ InU64(x[i]) THEN "f8" ELSE "O"
    ELSE IF K = {"s"} THEN "S" ELSE IF K = {"u"} THEN "U" ELSE "O"

Small(x) == IF x.v[1] = 1 THEN -x.v[4] ELSE x.v[4]   \* integers below 10^9
Lim(n) == IF n < 0 THEN <<1, 0, 0, -n>> ELSE <<0, 0, 0, n>>
\* text and bytes end at their last character that is not NUL
RECURSIVE Strip(_)
Strip(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] = 0 THEN Strip(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trunc4(q) == IF q < 0 THEN -((-q) \div 4) ELSE q \div 4
Ints == {"i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8"}
\* an item as a value of the type
As(x, t) ==
    CASE t = "?" -> [k |-> "b", v |-> <<IF x.k = "b" THEN x.v[1] ELSE IF x.k = "f" THEN Bool(x.v[1] # 0) ELSE Bool(Small(x) # 0)>>]
      [] t \in Ints -> [k |-> "i", v |-> IF x.k = "b" THEN Lim(x.v[1]) ELSE IF x.k = "f" THEN Lim(Trunc4(x.v[1])) ELSE x.v]
      [] t \in {"f4", "f8"} -> [k |-> "f", v |-> IF x.k = "f" THEN x.v ELSE IF x.k = "b" THEN <<4 * x.v[1]>> ELSE <<4 * Small(x)>>]
      [] t = "S" -> [k |-> "s", v |-> Strip(x.v)]
      [] t = "U" -> [k |-> "u", v |-> Strip(x.v)]
      [] OTHER -> x
Width(x) == FoldIdx(LAMBDA m, i : MaxI(m, Len(Strip(x[i].v))), 0, 1, Len(x))

\* x the items row by row, sh their shape (none for a scalar), want the type asked for or ""; r the array
Made(x, sh, want, r) ==
    LET t == IF want = "" THEN TypeOf(x) ELSE want IN
    /\ r.t = t /\ Len(r.x) = Len(x)
    /\ r.sh = (IF sh = <<>> THEN <<1>> ELSE sh)
    /\ \A i \in 1..Len(x) : r.x[i] = As(x[i], t)
    /\ t \in {"S", "U"} => r.w >= Width(x)
\* an array that is asked for as it is is returned itself; otherwise its items, type and shape are kept, in memory of its own if copied
Kept(a, r) ==
    IF a.copy = 0 /\ a.order = "" /\ a.want = ""
    THEN r.self = 1 /\ r.t = a.t /\ r.sh = a.sh /\ r.x = a.x
    ELSE /\ r.t = (IF a.want = "" THEN a.t ELSE a.want)
         /\ r.sh = (IF a.sh = <<>> THEN <<1>> ELSE a.sh)
         /\ \A i \in 1..Len(a.x) : r.x[i] = As(a.x[i], r.t)
         /\ Len(r.x) = Len(a.x)
         /\ a.copy = 1 => r.alias = 0
Laid(order, r) == (order = "C" => r.c = 1) /\ (order = "F" => r.f = 1)
=============================================================================
