------------------------------ MODULE MiscMC ------------------------------
(* The definitions used by Misc: trimming is idempotent and keeps everything in front of the blanks; interpolation goes through the
   table's points, is monotone between them, and clipping agrees with it inside the table. *)
EXTENDS Misc
VARIABLES s, xp, yp, x
Chars == {0, 32, 65}
Init == /\ s = <<>> /\ xp = <<0>> /\ yp \in {<<a>> : a \in -2..2} /\ x \in -8..40
Next == \/ Len(s) < 6 /\ xp = <<0>> /\ yp = <<0>> /\ x = 0 /\ (\E c \in Chars : s' = Append(s, c)) /\ UNCHANGED <<xp, yp, x>>
        \/ s = <<>> /\ Len(xp) < 3 /\ (\E d \in {1, 2, 8}, y \in -2..2 : xp' = Append(xp, xp[Len(xp)] + d) /\ yp' = Append(yp, y)) /\ UNCHANGED <<s, x>>
TrimOk == /\ Trim(Trim(s)) = Trim(s) /\ Len(Trim(s)) = Len(s)
          /\ \A i \in 1..Len(s) : s[i] = 65 => SubSeq(Trim(s), 1, i) = SubSeq(s, 1, i)
          /\ \A i \in 1..Len(s) : (\A j \in i..Len(s) : s[j] # 65) => Trim(s)[i] = 0
Points == Len(xp) > 1 => \A i \in 1..Len(xp), c \in BOOLEAN : Interp(2 * xp[i], xp, yp, c) = 16 * yp[i]
Inside == Len(xp) > 1 /\ x >= 2 * xp[1] /\ x <= 2 * xp[Len(xp)] =>
             /\ Interp(x, xp, yp, TRUE) = Interp(x, xp, yp, FALSE)
             /\ \E i \in 1..(Len(xp) - 1) : /\ 2 * xp[i] <= x /\ x <= 2 * xp[i + 1]
                                            /\ Interp(x, xp, yp, TRUE) >= 16 * MinI(yp[i], yp[i + 1])
                                            /\ Interp(x, xp, yp, TRUE) <= 16 * MaxI(yp[i], yp[i + 1])
=============================================================================
