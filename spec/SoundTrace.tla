----------------------------- MODULE SoundTrace -----------------------------
(* Executes function bodies that the implementation accepted, along every     *)
(* path. Cases come from WHASM_CASES, one JSON record per line: ctx (index    *)
(* into SOUND_CTX) and code, a list of instructions [op, bt, n].              *)
EXTENDS Exec, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.WHASM_CASES)
Ctxs  == ndJsonDeserialize(IOEnv.SOUND_CTX)

VARIABLE m

Init == \E i \in 1..Len(Cases) : m = [cid |-> i, s |-> Begin(Ctxs[Cases[i].ctx].ret)]

Next ==
  /\ m.s.st = "run"
  /\ \E t \in Steps(Ctxs[Cases[m.cid].ctx], Cases[m.cid].code, m.s) : m' = [m EXCEPT !.s = t]

NeverWrong == m.s.st # "wrong"
\* what a running body has left is never below the innermost construct's own values
Height == m.s.st = "run" => Len(m.s.vals) >= Last(m.s.labs).h /\ m.s.pc <= Len(Cases[m.cid].code)
=============================================================================
