------------------------------- MODULE GenBody -------------------------------
(* Explores the validator states reachable with a given context, alphabet of  *)
(* instructions and bounds, and writes out every transition, with a shortest  *)
(* instruction sequence leading to its source. The sequence is not part of a  *)
(* state's identity (VIEW), so each validator state is visited once.          *)
EXTENDS Typing, TLC, Json, IOUtils, CSV

Cfg == JsonDeserialize(IOEnv.GEN_CONFIG)
Out == IOEnv.GEN_OUT
Ctx == Cfg.ctx
Alphabet == Cfg.alphabet

VARIABLES v, path

Init == v = FuncStart(Cfg.ctx.ret) /\ path = <<>>

CanApply(i) ==
  Alphabet[i].op = 5 => Top(v.ctrls).op = 4

Next ==
  /\ v.ok
  /\ v.ctrls # <<>>
  /\ Len(v.opds) <= Cfg.height /\ Len(v.ctrls) <= Cfg.depth
  /\ \E i \in 1..Len(Alphabet) :
       /\ CanApply(i)
       /\ v' = Apply(Ctx, v, Alphabet[i])
       /\ path' = Append(path, i)

View == <<v.ok, v.opds, v.ctrls>>

EmitEdge == CSVWrite("%1$s", <<ToJson([p |-> path', v |-> v'])>>, Out)

\* The stack discipline itself: what lies below the innermost construct is never touched except by
\* leaving the construct, and dead code never reaches outside it.
Discipline ==
  v.ok => /\ \A i \in 1..Len(v.ctrls) : v.ctrls[i].h <= Len(v.opds)
          /\ \A i \in 2..Len(v.ctrls) : v.ctrls[i - 1].h <= v.ctrls[i].h
Protected ==
  [][ (v.ok /\ v'.ok /\ Len(v'.ctrls) >= Len(v.ctrls) /\ v.ctrls # <<>> /\ Len(v'.ctrls) = Len(v.ctrls))
      => LET h == Top(v.ctrls).h IN SubSeq(v.opds, 1, h) = SubSeq(v'.opds, 1, h) ]_v
NoUnknownOutsideDead ==
  v.ok => \A j \in 1..Len(v.opds) : v.opds[j] = AnyT =>
            \E i \in 1..Len(v.ctrls) : v.ctrls[i].dead /\ v.ctrls[i].h < j
=============================================================================
