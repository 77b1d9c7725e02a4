------------------------------ MODULE CliTrace ------------------------------
(* Runs of the real tool: args and class as in Cli, and what was observed:    *)
(* status (exit status, 256 + signal if killed), said (stages named in the    *)
(* diagnostic), out (0 nothing was printed, 1 exactly the module, 2 anything  *)
(* else).                                                                    *)
EXTENDS Cli, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.WHASM_CASES)

VARIABLE m
Init == \E i \in 1..Len(Cases) : m = [cid |-> i, t |-> Started(Cases[i].args)]
Next == Running(m.t) /\ m' = [m EXCEPT !.t = ToolStep(m.t, Cases[m.cid].class)]

Conform ==
  ~Running(m.t) =>
    LET c == Cases[m.cid]
    IN /\ c.status = m.t.status
       /\ IF m.t.said = "" THEN c.out = (IF m.t.printed THEN 1 ELSE 0)
          ELSE c.out = 2 /\ c.said = <<m.t.said>>
=============================================================================
