------------------------------- MODULE Misc -------------------------------
(* Bit counts, trimming of trailing blanks, interpolation on a table, and rows of records turned into columns. *)
EXTENDS Codes
LOCAL INSTANCE Sequences

RECURSIVE Ones(_)
Ones(b) == IF b = 0 THEN 0 ELSE (b % 2) + Ones(b \div 2)
ByteOnes == [b \in 0..255 |-> Ones(b)]
\* an item is the sequence of its bytes; a boolean counts as one bit
BitsOf(isbool, item) == IF isbool THEN Bool(item # <<0>>) ELSE SumSeq([i \in 1..Len(item) |-> ByteOnes[item[i]]])
Counted(isbool, items, r) == Len(r) = Len(items) /\ \A i \in 1..Len(items) : r[i] = BitsOf(isbool, items[i])

\* a text of fixed width is the sequence of its characters, 0 for none; trimming clears blanks at its end
RECURSIVE TrimAt(_, _)
TrimAt(s, k) == IF k > 0 /\ s[k] \in {0, 32} THEN TrimAt(s, k - 1) ELSE k
Trim(s) == LET k == TrimAt(s, Len(s)) IN [i \in 1..Len(s) |-> IF i <= k THEN s[i] ELSE 0]
Trimmed(ss, rs) == Len(rs) = Len(ss) /\ \A i \in 1..Len(ss) : rs[i] = Trim(ss[i])

(* Interpolation of x (in halves) on the table of abscissas xp (increasing, distances powers of two up to 8) and ordinates yp
   (in units); the answer in sixteenths. *)
Interp(x, xp, yp, clip) ==
    LET M == Len(xp)
        Seg(i, j) == 16 * yp[i] + (yp[j] - yp[i]) * ((8 * (x - 2 * xp[i])) \div (xp[j] - xp[i]))
        below == {i \in 1..M : 2 * xp[i] < x}
        j == Cardinality(below)                         \* the table's points left of x
    IN IF x = INV THEN INV
       ELSE IF j = 0 THEN IF clip THEN 16 * yp[1] ELSE Seg(1, 2)
       ELSE IF j = M THEN IF clip THEN 16 * yp[M] ELSE Seg(M - 1, M)
       ELSE Seg(j, j + 1)
\* 1-d tables serve every x, 2-d tables have a row for each
Interpolated(x, xp, yp, clip, r) ==
    Len(r) = Len(x) /\ \A i \in 1..Len(x) : r[i] = Interp(x[i], xp[IF Len(xp) = 1 THEN 1 ELSE i], yp[IF Len(yp) = 1 THEN 1 ELSE i], clip)

\* rows of bytes; a column <<offset, width>> takes these bytes of every row
Columns(rows, cols, r) ==
    /\ Len(r) = Len(cols)
    /\ \A c \in 1..Len(cols) : r[c] = [i \in 1..Len(rows) |-> SubSeq(rows[i], cols[c][1] + 1, cols[c][1] + cols[c][2])]
=============================================================================
