---------------------------- MODULE GenSections -----------------------------
(* Sequences of section ids: from every state (greatest id so far, whether   *)
(* the last section was a custom one), every one of the 256 ids.             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV

Out == IOEnv.GEN_OUT

VARIABLES last, custom, ok, path

Init == last = 0 /\ custom = 0 /\ ok = TRUE /\ path = <<>>

Next ==
  /\ ok
  /\ \E id \in 0..255 :
       /\ path' = Append(path, id)
       /\ IF id = 0 THEN custom < 2 /\ custom' = custom + 1 /\ UNCHANGED <<last, ok>>
          ELSE IF id <= 11 /\ id > last THEN last' = id /\ custom' = 0 /\ ok' = TRUE
          ELSE ok' = FALSE /\ UNCHANGED <<last, custom>>

View == <<last, custom, ok>>
EmitEdge == CSVWrite("%1$s", <<ToJson([p |-> path', ok |-> ok'])>>, Out)

Range(s) == {s[i] : i \in 1..Len(s)}
Increasing == ok => \A i \in 1..Len(path), j \in 1..Len(path) :
                      i < j /\ path[i] # 0 /\ path[j] # 0 => path[i] < path[j]
=============================================================================
