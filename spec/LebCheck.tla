------------------------------ MODULE LebCheck ------------------------------
(* The LEB-128 machine computes what the format defines. A sequence of bytes *)
(* ending at the first one below 128 spells the number                       *)
(*     sum of (b_i mod 128) * 128^i                                          *)
(* taken modulo two's complement in 7n bits for signed numbers, and is       *)
(* accepted exactly when that number fits. Widths are small enough for the   *)
(* number to be computed directly; the machine is the same at every width.   *)
EXTENDS Leb, TLC, IOUtils

Deep == IOEnv.LEB_DEEP = "1"
Widths == IF Deep THEN 1..16 ELSE {1, 3, 7, 8, 9, 14, 15, 16}
First == IF Deep THEN 0..255 ELSE {0, 1, 2, 3, 5, 31, 32, 62, 63, 64, 65, 96, 126, 127}
                                  \union {128, 129, 131, 159, 160, 191, 192, 193, 254, 255}
Later == {0, 1, 2, 3, 31, 32, 63, 64, 65, 96, 126, 127, 128, 129, 130, 191, 192, 224, 254, 255}
Middle == Later \union {b \in 0..255 : b % 5 = 2}
MaxLen == IF Deep THEN 3 ELSE 4

VARIABLES w, sg, in, acc, st

Init == w \in Widths /\ sg \in BOOLEAN /\ in = <<>> /\ acc = <<>> /\ st = "more"

Next ==
  /\ st \in {"more", "oor"} /\ Len(in) < MaxLen
  /\ in # <<>> => in[Len(in)] >= 128
  /\ UNCHANGED <<w, sg>>
  /\ \E b \in (IF Len(in) = 0 THEN First ELSE IF Deep /\ Len(in) = 1 THEN Middle ELSE Later) :
       /\ in' = Append(in, b)
       /\ IF st = "oor" THEN UNCHANGED <<acc, st>>
          ELSE LET r == LebTake(acc, b, w, sg) IN st' = r.st /\ acc' = r.acc

P128 == <<1, 128, 16384, 2097152, 268435456>>
RECURSIVE Sum(_)
Sum(i) == IF i = 0 THEN 0 ELSE Sum(i - 1) + (in[i] % 128) * P128[i]
Pow(n) == IF n <= 8 THEN Pow2[n + 1] ELSE Pow2[n - 7] * 256

Number == LET n == Sum(Len(in))
          IN IF sg /\ in[Len(in)] % 128 >= 64 THEN n - P128[Len(in) + 1] ELSE n
Fits == IF sg THEN Number >= -Pow(w - 1) /\ Number < Pow(w - 1) ELSE Number < Pow(w)

Ended == in # <<>> /\ in[Len(in)] < 128

\* value of the bits received, extended to the width
RECURSIVE BitSum(_)
BitSum(i) == IF i = 0 THEN 0 ELSE BitSum(i - 1) + acc[i] * Pow(i - 1)
Value == LET n == Len(acc)
         IN IF sg /\ acc[n] = 1 THEN BitSum(n) - Pow(n) ELSE BitSum(n)

\* accepted exactly when it fits, with that value
Exact == Ended => /\ (st = "done") = Fits
                  /\ st = "done" => Value = Number
\* rejected early only if nothing that follows could make it fit
NoHope == st = "oor" /\ ~Ended /\ Len(in) < MaxLen =>
            \A b \in 0..127 : LET n == Sum(Len(in)) + b * P128[Len(in) + 1]
                                  m == IF sg /\ b >= 64 THEN n - P128[Len(in) + 2] ELSE n
                              IN ~(IF sg THEN m >= -Pow(w - 1) /\ m < Pow(w - 1) ELSE m < Pow(w))
\* bytes produced at the real widths, and the short cut for one byte
Bytes == Ended /\ st = "done" /\ w \in {8, 16} =>
            LET b == LebBytes(acc, w, sg)
                n == IF Number < 0 THEN Number + Pow(w) ELSE Number
            IN b = IF w = 8 THEN <<n>> ELSE <<n % 256, n \div 256>>
ShortCut == in # <<>> => U32(in, 1, Len(in)) = LebRead(in, 1, Len(in), 32, FALSE)
=============================================================================
