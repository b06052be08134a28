------------------------------ MODULE CodecMC ------------------------------
(* The design of the checksum: what it promises to detect, for every short message.  A message of N bytes is built byte by byte
   from a few byte values, then any one burst of up to two adjacent bytes is changed. *)
EXTENDS Codec
CONSTANTS N, Values
VARIABLES m, d, pos
Init == m = <<>> /\ d = <<>> /\ pos = 0
Grow == pos = 0 /\ Len(m) < N /\ \E b \in Values : m' = Append(m, b) /\ UNCHANGED <<d, pos>>
Hit == /\ pos = 0 /\ Len(m) > 0
       /\ \E p \in 1..Len(m), x \in {1, 16, 128, 255}, y \in {0, 1, 128, 255} :
            /\ pos' = p
            /\ d' = [i \in 1..Len(m) |-> IF i = p THEN m[i] ^^ x ELSE IF i = p + 1 THEN m[i] ^^ y ELSE m[i]]
       /\ UNCHANGED m
Next == Grow \/ Hit
Word(s) == Len(s) = 4 /\ \A i \in 1..4 : s[i] \in 0..65535
Typed == Word(Crc(m))
Detects == pos > 0 => Crc(d) # Crc(m)
\* a cut message is noticed as well
Cuts == pos = 0 /\ Len(m) > 0 => Crc(m) # Crc(SubSeq(m, 1, Len(m) - 1))
Known == Crc(<<49, 50, 51, 52, 53, 54, 55, 56, 57>>) = <<14842, 57113, 51643, 39261>>
=============================================================================
