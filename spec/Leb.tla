-------------------------------- MODULE Leb --------------------------------
(* LEB-128 integers as a machine that takes one byte at a time.             *)
(* The state is the sequence of bits received so far, cut to the width.     *)
(*   - a byte contributes its low seven bits; the top bit says "more";      *)
(*   - bits beyond the width must be zero (unsigned) or repeat the sign bit *)
(*     (signed), otherwise the number is out of range, there and then;      *)
(*   - at the last byte the value is extended to the width with zeros       *)
(*     (unsigned) or with the last bit received (signed).                   *)
EXTENDS Num

Bit(b, k) == (b \div Pow2[k + 1]) % 2
Bits7(b)  == << Bit(b,0), Bit(b,1), Bit(b,2), Bit(b,3), Bit(b,4), Bit(b,5), Bit(b,6) >>

\* outcome of taking byte b after the bits acc:
\*   "oor" | "more" with the new bits | "done" with the new bits
LebTake(acc, b, w, sg) ==
  LET all  == acc \o Bits7(b)
      kept == IF Len(all) <= w THEN all ELSE SubSeq(all, 1, w)
      fits == \/ Len(all) <= w
              \/ \A i \in (w + 1)..Len(all) : all[i] = (IF sg THEN kept[w] ELSE 0)
  IN IF ~fits THEN [st |-> "oor", acc |-> <<>>]
     ELSE [st |-> IF b >= 128 THEN "more" ELSE "done", acc |-> kept]

\* the bytes of the value whose low bits are acc
LebBytes(acc, w, sg) ==
  LET pad == IF sg THEN acc[Len(acc)] ELSE 0
      bit(i) == IF i <= Len(acc) THEN acc[i] ELSE pad
  IN [ j \in 1..(w \div 8) |->
         LET k == 8 * (j - 1)
         IN bit(k+1) + 2*bit(k+2) + 4*bit(k+3) + 8*bit(k+4)
            + 16*bit(k+5) + 32*bit(k+6) + 64*bit(k+7) + 128*bit(k+8) ]

RECURSIVE LebRun(_, _, _, _, _, _)
LebRun(in, pos, lim, w, sg, acc) ==
  IF pos > lim THEN [st |-> "eof", val |-> <<>>, pos |-> pos]
  ELSE LET r == LebTake(acc, in[pos], w, sg)
       IN CASE r.st = "oor"  -> [st |-> "oor", val |-> <<>>, pos |-> pos]
            [] r.st = "done" -> [st |-> "ok", val |-> LebBytes(r.acc, w, sg), pos |-> pos + 1]
            [] OTHER         -> LebRun(in, pos + 1, lim, w, sg, r.acc)

\* reads an integer of width w from in[pos..lim]
LebRead(in, pos, lim, w, sg) == LebRun(in, pos, lim, w, sg, <<>>)

\* the common case, one byte, for unsigned numbers (agreement is checked in LebCheck)
U32(in, pos, lim) ==
  IF pos <= lim /\ in[pos] < 128 THEN [st |-> "ok", val |-> <<in[pos], 0, 0, 0>>, pos |-> pos + 1]
  ELSE LebRead(in, pos, lim, 32, FALSE)
=============================================================================
