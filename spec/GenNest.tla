------------------------------- MODULE GenNest ------------------------------
(* Bracketing of instruction sequences: from every stack of open constructs  *)
(* up to a depth, every symbol. Symbols: 2, 3, 4 open a construct, 5 is      *)
(* else, 11 is end, 1 is any other instruction.                              *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV

Out == IOEnv.GEN_OUT
Depth == IF IOEnv.NEST_DEPTH = "5" THEN 5 ELSE 4

VARIABLES ns, ok, path

Init == ns = <<0>> /\ ok = TRUE /\ path = <<>>

Front(s) == SubSeq(s, 1, Len(s) - 1)
Top(s) == s[Len(s)]

Next ==
  /\ ok /\ ns # <<>> /\ Len(ns) <= Depth
  /\ \E o \in {1, 2, 3, 4, 5, 11} :
       /\ path' = Append(path, o)
       /\ CASE o = 1 -> UNCHANGED <<ns, ok>>
            [] o \in {2, 3, 4} -> ns' = Append(ns, o) /\ UNCHANGED ok
            [] o = 5  -> IF Top(ns) = 4 THEN ns' = Append(Front(ns), 5) /\ UNCHANGED ok
                         ELSE ok' = FALSE /\ UNCHANGED ns
            [] OTHER  -> ns' = Front(ns) /\ UNCHANGED ok

View == <<ns, ok>>
EmitEdge == CSVWrite("%1$s", <<ToJson([p |-> path', ok |-> ok', ns |-> ns'])>>, Out)

\* Counting brackets says the same as the stack.
RECURSIVE Count(_, _)
Count(s, S) == IF s = <<>> THEN 0 ELSE (IF s[1] \in S THEN 1 ELSE 0) + Count(Tail(s), S)
Balanced == ok => Len(ns) = 1 + Count(path, {2, 3, 4}) - Count(path, {11})
=============================================================================
