-------------------------------- MODULE Num --------------------------------
(* Numbers wider than TLC's 32-bit integers are kept as little-endian byte  *)
(* sequences. Where a number is only used as a count, size or index it is   *)
(* converted to an integer, saturating at BIG, which is larger than any     *)
(* input, list or depth that occurs.                                        *)
EXTENDS Integers, Sequences

BIG == 1073741824

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>     \* Pow2[k + 1] = 2^k

RECURSIVE NatOf(_)
NatOf(b) ==
  CASE Len(b) = 1 -> b[1]
    [] Len(b) = 2 -> b[1] + 256 * b[2]
    [] Len(b) = 4 -> IF b[4] >= 64 THEN BIG
                     ELSE b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]
    [] OTHER      -> BIG

\* little-endian bytes of a natural number below 2^30
LE4(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256 >>

\* a <= b for little-endian sequences of the same length
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) ==
  IF i = 0 THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE LeqFrom(a, b, i - 1)
Leq(a, b) == LeqFrom(a, b, Len(a))

\* sum of two 4-byte numbers as a 5-byte number
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
  IF i > 4 THEN <<c>>
  ELSE LET s == a[i] + b[i] + c
       IN <<s % 256>> \o AddFrom(a, b, i + 1, s \div 256)
Add4(a, b) == AddFrom(a, b, 1, 0)

Min(a, b) == IF a < b THEN a ELSE b
=============================================================================
