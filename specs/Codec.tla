------------------------------- MODULE Codec -------------------------------
(* Compressing and decompressing buffers, and the CRC-64 (ECMA-182, reflected) of a buffer.  A 64-bit word is the sequence of its
   four 16-bit limbs, lowest first. *)
EXTENDS Codes, Bitwise
LOCAL INSTANCE Sequences

X4(a, b) == [i \in 1..4 |-> a[i] ^^ b[i]]
Zero == <<0, 0, 0, 0>>
Ones == <<65535, 65535, 65535, 65535>>
Shr(a, k) == LET p == IF k = 1 THEN 2 ELSE 256
             IN [i \in 1..4 |-> (a[i] \div p) + (IF i < 4 THEN (a[i + 1] % p) * (65536 \div p) ELSE 0)]
Poly == <<3906, 55175, 22421, 51564>>                 \* C96C5795D7870F42
Step(a) == IF a[1] % 2 = 1 THEN X4(Shr(a, 1), Poly) ELSE Shr(a, 1)
\* a byte's remainder
Rem(b) == FoldIdx(LAMBDA a, k : Step(a), <<b, 0, 0, 0>>, 1, 8)
Table == [b \in 0..255 |-> Rem(b)]
Crc(s) == X4(FoldIdx(LAMBDA a, k : X4(Table[(a[1] ^^ s[k]) % 256], Shr(a, 8)), Ones, 1, Len(s)), Ones)

\* what decompressing gave for frames of the items saved: all of them, unless a frame was damaged, which must be reported
Decoded(saved, damaged, st, got) == IF st = "err" THEN damaged ELSE st = "ok" /\ got = saved
=============================================================================
