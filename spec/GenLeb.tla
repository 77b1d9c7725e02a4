------------------------------- MODULE GenLeb -------------------------------
(* Explores the LEB-128 machine at every width and signedness and writes out *)
(* every transition: all 256 bytes from every state. Two states are the same *)
(* when the machine cannot tell them apart: as many bits received, the same  *)
(* sign bit if it was received, and, up to a bound, as much padding.         *)
EXTENDS Leb, TLC, Json, IOUtils, CSV

Out == IOEnv.GEN_OUT
Padding == 3

VARIABLES w, sg, acc, path, st

Init == /\ w \in {8, 16, 32, 64} /\ sg \in BOOLEAN
        /\ acc = <<>> /\ path = <<>> /\ st = "more"

Groups(n) == (n + 6) \div 7

Next ==
  /\ st = "more"
  /\ Len(path) < Groups(w) + Padding
  /\ UNCHANGED <<w, sg>>
  /\ \E b \in 0..255 :
       LET r == LebTake(acc, b, w, sg)
       IN /\ st' = r.st /\ acc' = r.acc /\ path' = Append(path, b)

View == <<w, sg, st, Len(path), IF sg /\ Len(acc) = w THEN acc[w] ELSE 0>>

EmitEdge == CSVWrite("%1$s", <<ToJson([w |-> w, sg |-> sg, p |-> path', st |-> st'])>>, Out)

\* received bits never exceed the width, and padding adds none
Bounded == Len(acc) <= w
\* once full, the value can no longer change
Settled == [][Len(acc) = w /\ st' # "oor" => acc' = acc]_<<acc, st>>
=============================================================================
