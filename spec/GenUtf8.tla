------------------------------ MODULE GenUtf8 -------------------------------
(* Every transition of the UTF-8 automaton: all 256 bytes from every state,  *)
(* with a shortest byte string leading to the state.                         *)
EXTENDS Utf8, TLC, Json, IOUtils, CSV

Out == IOEnv.GEN_OUT

VARIABLES q, path

Init == q = 0 /\ path = <<>>
Next == /\ q # 9
        /\ \E b \in 0..255 : q' = UStep(q, b) /\ path' = Append(path, b)
View == q
EmitEdge == CSVWrite("%1$s", <<ToJson([p |-> path', f |-> q, q |-> q'])>>, Out)
TypeOk == q \in UStates
=============================================================================
