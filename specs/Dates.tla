------------------------------- MODULE Dates -------------------------------
(* Dates and times as text.  A text is the sequence of its character codes.  An instant is <<days since 1970, second of the day,
   nanosecond>>; Nil (all zero) is the invalid instant. *)
EXTENDS Codes
LOCAL INSTANCE Sequences

Nil == <<0, 0, 0>>
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] m \in {4, 6, 9, 11} -> 30 [] OTHER -> 31
IsDate(y, m, d) == y \in 1970..2099 /\ m \in 1..12 /\ d >= 1 /\ d <= MonthDays(y, m)
LeapsTo(y) == (y \div 4) - (y \div 100) + (y \div 400)          \* leap years up to y
DayNumber(y, m, d) == 365 * (y - 1970) + LeapsTo(y - 1) - LeapsTo(1969)
                      + FoldIdx(LAMBDA a, k : a + MonthDays(y, k), 0, 1, m - 1) + d - 1
IsTime(h, mi, s) == h \in 0..23 /\ mi \in 0..59 /\ s \in 0..59
Pow10(k) == FoldIdx(LAMBDA a, i : a * 10, 1, 1, k)

\* characters
Digit(c) == c \in 48..57
White(c) == c \in (9..13) \cup {32}
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Ch(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0
RECURSIVE SkipWhite(_, _)
SkipWhite(s, i) == IF White(Ch(s, i)) THEN SkipWhite(s, i + 1) ELSE i
\* the number of up to k digits at i: value v, digits n, next position i
RECURSIVE Num(_, _, _, _, _)
Num(s, i, k, v, n) == IF k > 0 /\ Digit(Ch(s, i)) THEN Num(s, i + 1, k - 1, 10 * v + Ch(s, i) - 48, n + 1) ELSE [v |-> v, n |-> n, i |-> i]
Number(s, i, k) == Num(s, i, k, 0, 0)

\* YYYY-MM-DD or YYYYMMDD
DateAt(s, i) ==
    LET y == Number(s, i, 4)
        dash == Ch(s, y.i) = 45
        m == Number(s, IF dash THEN y.i + 1 ELSE y.i, 2)
        d == Number(s, IF dash THEN m.i + 1 ELSE m.i, 2)
    IN [ok |-> y.n = 4 /\ m.n >= (IF dash THEN 1 ELSE 2) /\ (dash => Ch(s, m.i) = 45) /\ d.n >= 1, y |-> y.v, m |-> m.v, d |-> d.v, i |-> d.i]
\* HH, HH:MM, HH:MM:SS or HH:MM:SS.fraction; parts = how many of them
TimeAt(s, i) ==
    LET h == Number(s, i, 2)
        m == Number(s, h.i + 1, 2) hasM == Ch(s, h.i) = 58
        c == Number(s, m.i + 1, 2) hasS == hasM /\ Ch(s, m.i) = 58
        f == Number(s, c.i + 1, 9) hasF == hasS /\ Ch(s, c.i) = 46
    IN [ok |-> h.n >= 1 /\ (hasM => m.n >= 1) /\ (hasS => c.n >= 1) /\ (hasF => f.n >= 1),
        parts |-> IF hasF THEN 4 ELSE IF hasS THEN 3 ELSE IF hasM THEN 2 ELSE 1,
        h |-> h.v, m |-> IF hasM THEN m.v ELSE 0, s |-> IF hasS THEN c.v ELSE 0, f |-> IF hasF THEN f.v * Pow10(9 - f.n) ELSE 0,
        i |-> IF hasF THEN f.i ELSE IF hasS THEN c.i ELSE IF hasM THEN m.i ELSE h.i]

Good(v) == [good |-> TRUE, v |-> v]
Malformed == [good |-> FALSE, v |-> Nil]
DayOf(d) == IF IsDate(d.y, d.m, d.d) THEN DayNumber(d.y, d.m, d.d) ELSE -1
\* what a text means: its instant (Nil when a field is out of range), or that it is malformed
Meaning(kind, s) ==
    LET b == SkipWhite(s, 1) IN
    IF b > Len(s) THEN Good(Nil) ELSE
    CASE kind = "date" ->
           LET d == DateAt(s, b) IN
           IF d.ok /\ d.i > Len(s) THEN Good(IF DayOf(d) < 0 THEN Nil ELSE <<DayOf(d), 0, 0>>) ELSE Malformed
      [] kind = "time" ->
           LET t == TimeAt(s, b) IN
           IF t.ok /\ t.i > Len(s) /\ t.parts > 1
           THEN Good(IF IsTime(t.h, t.m, t.s) THEN <<0, t.h * 3600 + t.m * 60 + t.s, t.f>> ELSE Nil) ELSE Malformed
      [] kind = "datetime" ->
           LET d == DateAt(s, b) t == TimeAt(s, d.i + 1) IN
           IF ~d.ok THEN Malformed
           ELSE IF d.i > Len(s) THEN Good(IF DayOf(d) < 0 THEN Nil ELSE <<DayOf(d), 0, 0>>)
           ELSE IF Ch(s, d.i) \in {84, 32} /\ t.ok /\ t.i > Len(s)
           THEN Good(IF DayOf(d) < 0 THEN Nil
                     ELSE IF ~IsTime(t.h, t.m, t.s) THEN <<DayOf(d), 0, 0>>       \* a bad time counts as the start of the day
                     ELSE <<DayOf(d), t.h * 3600 + t.m * 60 + t.s, t.f>>)
           ELSE Malformed
      [] OTHER -> Malformed
\* a text cut short right after a delimiter is neither required to be accepted nor to be reported
CutShort(s) == Len(s) = 0 \/ Ch(s, Len(s)) \in {58, 84, 46, 45} \/ White(Ch(s, Len(s)))
\* answer v for text s, in an array for which a warning was (w) or was not given
Parsed(kind, s, v, w) ==
    LET m == Meaning(kind, s) IN
    IF m.good THEN v = m.v
    ELSE IF CutShort(s) THEN TRUE ELSE v = Nil \/ w
Array(kind, ss, vs, w) ==
    /\ Len(vs) = Len(ss) /\ \A k \in 1..Len(ss) : Parsed(kind, ss[k], vs[k], w)
    /\ (\A k \in 1..Len(ss) : Meaning(kind, ss[k]).good) => ~w

(* Parsing by a strptime format. *)
Months == <<<<106, 97, 110, 117, 97, 114, 121>>,
      <<102, 101, 98, 114, 117, 97, 114, 121>>,
      <<109, 97, 114, 99, 104>>,
      <<97, 112, 114, 105, 108>>,
      <<109, 97, 121>>,
      <<106, 117, 110, 101>>,
      <<106, 117, 108, 121>>,
      <<97, 117, 103, 117, 115, 116>>,
      <<115, 101, 112, 116, 101, 109, 98, 101, 114>>,
      <<111, 99, 116, 111, 98, 101, 114>>,
      <<110, 111, 118, 101, 109, 98, 101, 114>>,
      <<100, 101, 99, 101, 109, 98, 101, 114>>>>
Weekdays == <<<<115, 117, 110, 100, 97, 121>>,
      <<109, 111, 110, 100, 97, 121>>,
      <<116, 117, 101, 115, 100, 97, 121>>,
      <<119, 101, 100, 110, 101, 115, 100, 97, 121>>,
      <<116, 104, 117, 114, 115, 100, 97, 121>>,
      <<102, 114, 105, 100, 97, 121>>,
      <<115, 97, 116, 117, 114, 100, 97, 121>>>>
Noons == <<<<97, 109>>,
      <<112, 109>>>>
Starts(s, i, w) == i - 1 + Len(w) <= Len(s) /\ \A k \in 1..Len(w) : Lower(s[i + k - 1]) = w[k]
\* which of the names (or their first a letters) stands at i: <<index from 0, next position>>, index -1 for none
NameAt(s, i, names, a) ==
    IF \E k \in 1..Len(names) : Starts(s, i, names[k])
    THEN LET k == CHOOSE k \in 1..Len(names) : Starts(s, i, names[k]) IN <<k - 1, i + Len(names[k])>>
    ELSE IF a > 0 /\ \E k \in 1..Len(names) : Starts(s, i, SubSeq(names[k], 1, a))
    THEN LET k == CHOOSE k \in 1..Len(names) : Starts(s, i, SubSeq(names[k], 1, a)) IN <<k - 1, i + a>>
    ELSE <<-1, i>>
\* the longest run of digits that can be a number up to hi, in lo..hi
RECURSIVE Bounded(_, _, _, _, _)
Bounded(s, i, hi, k, v) == IF k > 0 /\ Digit(Ch(s, i)) /\ v * 10 <= hi THEN Bounded(s, i + 1, hi, k - 1, 10 * v + Ch(s, i) - 48) ELSE <<v, i>>
Digits(hi) == IF hi > 999 THEN 4 ELSE IF hi > 99 THEN 3 ELSE IF hi > 9 THEN 2 ELSE 1
Field(s, i, lo, hi) == IF ~Digit(Ch(s, i)) THEN <<-1, i>>
                       ELSE LET b == Bounded(s, i, hi, Digits(hi), 0) IN IF b[1] \in lo..hi THEN b ELSE <<-1, i>>
Start == [ok |-> TRUE, i |-> 1, y |-> 0, m |-> 1, d |-> 0, h |-> 0, mi |-> 0, s |-> 0, cent |-> FALSE]
No(st) == [st EXCEPT !.ok = FALSE]
Set(st, f, r) == IF r[1] < 0 THEN No(st) ELSE [[st EXCEPT ![f] = r[1]] EXCEPT !.i = r[2]]
Move(st, r) == IF r[1] < 0 THEN No(st) ELSE [st EXCEPT !.i = r[2]]
F_F == <<37, 89, 45, 37, 109, 45, 37, 100>>               \* %Y-%m-%d
F_D == <<37, 109, 47, 37, 100, 47, 37, 121>>              \* %m/%d/%y
F_T == <<37, 72, 58, 37, 77, 58, 37, 83>>                 \* %H:%M:%S
F_R == <<37, 72, 58, 37, 77>>                             \* %H:%M
F_x == <<37, 120, 32, 37, 88>>                            \* %x %X
\* which conversions take the modifiers E and O
TakesE == {67, 88, 120, 99, 89, 121}
TakesO == {72, 73, 77, 83, 85, 87, 100, 101, 109, 117, 119, 121}
F_r == <<37, 73, 58, 37, 77, 58, 37, 83, 32, 37, 112>>    \* %I:%M:%S %p
RECURSIVE Go(_, _, _, _)
Go(f, k, s, st) ==
    IF ~st.ok \/ k > Len(f) THEN st ELSE
    LET c == f[k] mod == c = 37 /\ Ch(f, k + 1) \in {69, 79} n == Ch(f, IF mod THEN k + 2 ELSE k + 1) i == st.i
        lit(x) == IF Ch(s, i) = x /\ i <= Len(s) THEN [st EXCEPT !.i = i + 1] ELSE No(st) IN
    IF White(c) THEN Go(f, k + 1, s, [st EXCEPT !.i = SkipWhite(s, i)])
    ELSE IF c # 37 THEN Go(f, k + 1, s, lit(c))
    ELSE IF mod /\ n \notin (IF Ch(f, k + 1) = 69 THEN TakesE ELSE TakesO) THEN No(st)
    ELSE Go(f, IF mod THEN k + 3 ELSE k + 2, s,
       CASE n = 37 -> lit(37)
         [] n = 89 -> Set(st, "y", Field(s, i, 0, 9999))
         [] n = 121 -> LET r == Field(s, i, 0, 99) IN IF r[1] < 0 THEN No(st)
                       ELSE [Set(st, "y", <<r[1] + (IF st.cent THEN (st.y \div 100) * 100 ELSE IF r[1] <= 68 THEN 2000 ELSE 1900), r[2]>>) EXCEPT !.cent = TRUE]
         \* the century: of a year given before, or of one to come
         [] n = 67 -> LET r == Field(s, i, 0, 99) IN IF r[1] < 0 THEN No(st)
                      ELSE [Set(st, "y", <<100 * r[1] + (IF st.cent THEN st.y % 100 ELSE 0), r[2]>>) EXCEPT !.cent = TRUE]
         [] n = 109 -> Set(st, "m", Field(s, i, 1, 12))
         [] n \in {100, 101} -> Set(st, "d", Field(s, i, 1, 31))
         [] n \in {72, 107} -> Set(st, "h", Field(s, i, 0, 23))
         [] n \in {73, 108} -> LET r == Field(s, i, 1, 12) IN IF r[1] < 0 THEN No(st) ELSE Set(st, "h", <<r[1] % 12, r[2]>>)
         [] n = 77 -> Set(st, "mi", Field(s, i, 0, 59))
         [] n = 83 -> Set(st, "s", Field(s, i, 0, 61))
         [] n = 106 -> Move(st, Field(s, i, 1, 366))
         [] n = 119 -> Move(st, Field(s, i, 0, 6))
         [] n = 117 -> Move(st, Field(s, i, 1, 7))
         [] n \in {85, 86, 87} -> Move(st, Field(s, i, 0, 53))
         [] n = 103 -> Move(st, Field(s, i, 0, 99))
         [] n \in {66, 98, 104} -> LET r == NameAt(s, i, Months, 3) IN IF r[1] < 0 THEN No(st) ELSE Set(st, "m", <<r[1] + 1, r[2]>>)
         [] n \in {65, 97} -> Move(st, NameAt(s, i, Weekdays, 3))
         [] n = 112 -> LET r == NameAt(s, i, Noons, 0) IN
                       IF r[1] < 0 \/ st.h > 11 THEN No(st) ELSE Set(st, "h", <<st.h + 12 * r[1], r[2]>>)
         [] n \in {110, 116} -> [st EXCEPT !.i = SkipWhite(s, i)]
         [] n = 70 -> [Go(F_F, 1, s, [st EXCEPT !.cent = FALSE]) EXCEPT !.cent = st.cent]
         [] n \in {68, 120} -> [Go(F_D, 1, s, [st EXCEPT !.cent = FALSE]) EXCEPT !.cent = st.cent]
         [] n \in {84, 88} -> [Go(F_T, 1, s, [st EXCEPT !.cent = FALSE]) EXCEPT !.cent = st.cent]
         [] n = 99 -> Go(F_x, 1, s, st)
         [] n = 82 -> Go(F_R, 1, s, st)
         [] n = 114 -> Go(F_r, 1, s, st)
         [] OTHER -> No(st))
\* a fraction of a second may follow what the format took; other trailing text is ignored
ByFormat(f, s, v) ==
    LET e == Go(f, 1, s, Start)
        x == Number(s, e.i + 1, 9)
        frac == IF Ch(s, e.i) = 46 THEN x.v * Pow10(9 - x.n) ELSE 0
    IN IF ~e.ok \/ ~IsDate(e.y, e.m, e.d) THEN v = Nil
       ELSE IF e.s > 59 THEN TRUE
       ELSE v = <<DayNumber(e.y, e.m, e.d), e.h * 3600 + e.mi * 60 + e.s, frac>>
=============================================================================
