------------------------------ MODULE DatesMC ------------------------------
(* The calendar as a state machine: one day after another from 1970-01-01 to the end of 2099.  The day number counts the steps,
   the day's text in either form means that day, and the four-year shortcut used for the table years agrees with the calendar. *)
EXTENDS Dates
CONSTANT LastYear
VARIABLES y, m, d, n
Init == y = 1970 /\ m = 1 /\ d = 1 /\ n = 0
Next == /\ y <= LastYear /\ n' = n + 1
        /\ IF d < MonthDays(y, m) THEN d' = d + 1 /\ UNCHANGED <<y, m>>
           ELSE d' = 1 /\ IF m < 12 THEN m' = m + 1 /\ y' = y ELSE m' = 1 /\ y' = y + 1
Dig(v, k) == ((v \div Pow10(k)) % 10) + 48
Text(a, b) == <<Dig(y, 3), Dig(y, 2), Dig(y, 1), Dig(y, 0)>> \o a \o <<Dig(m, 1), Dig(m, 0)>> \o a \o <<Dig(d, 1), Dig(d, 0)>> \o b
Right == y <= LastYear =>
    /\ DayNumber(y, m, d) = n
    /\ Meaning("date", Text(<<45>>, <<>>)) = Good(<<n, 0, 0>>)
    /\ Meaning("date", Text(<<>>, <<>>)) = Good(<<n, 0, 0>>)
    /\ Meaning("datetime", Text(<<45>>, <<84, 50, 51, 58, 53, 57, 58, 53, 57, 46, 53>>)) = Good(<<n, 86399, 500000000>>)
    /\ ByFormat(F_F, Text(<<45>>, <<>>), <<n, 0, 0>>)
    /\ n = 365 * (y - 1970) + (y - 1969) \div 4 + FoldIdx(LAMBDA a, k : a + MonthDays(y, k), 0, 1, m - 1) + d - 1
=============================================================================
