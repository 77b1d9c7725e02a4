----------------------------- MODULE SoundCheck -----------------------------
(* The validation rules against execution, on the specification alone: every   *)
(* properly nested body over a small alphabet up to a length is judged by the  *)
(* rules of Typing and executed with Exec.                                    *)
(*   Sound: an accepted body never goes wrong on any path.                    *)
(*   Tight: a body without branches that is rejected goes wrong on some path, *)
(*          so the rules are not stricter than they have to be.               *)
EXTENDS Typing, TLC, IOUtils

E == INSTANCE Exec

Deep == IOEnv.SOUND_DEEP = "1"
MaxLen == IF Deep THEN 6 ELSE 5

I(op, bt, n) == [op |-> op, bt |-> bt, n |-> n]
Plains == { I(65, Void, <<>>), I(66, Void, <<>>), I(106, Void, <<>>), I(26, Void, <<>>), I(27, Void, <<>>) }
Constructs == { I(2, Void, <<>>), I(2, I32, <<>>), I(3, Void, <<>>), I(3, I32, <<>>), I(4, Void, <<>>), I(4, I32, <<>>) }
Branches == { I(12, Void, <<0>>), I(12, Void, <<1>>), I(13, Void, <<0>>), I(13, Void, <<1>>),
              I(14, Void, <<0, 1>>), I(15, Void, <<>>), I(0, Void, <<>>) }
End == I(11, Void, <<>>)
Else == I(5, Void, <<>>)

Ctx(ret) == [types |-> <<>>, funcs |-> <<>>, ntab |-> 0, nmem |-> 0, globs |-> <<>>, locals |-> <<>>, ret |-> ret]

VARIABLES ret, code, open, v, s

vars == <<ret, code, open, v, s>>
None == [st |-> "build"]

Init ==
  /\ ret \in { <<>>, <<I32>> }
  /\ code = <<>>
  /\ open = <<0>>
  /\ v = FuncStart(ret)
  /\ s = None

Add(i) ==
  /\ s = None /\ open # <<>>
  /\ Len(code) + Len(open) < MaxLen + 1
  /\ code' = Append(code, i)
  /\ v' = Apply(Ctx(ret), v, i)
  /\ open' = IF i.op \in {2, 3, 4} THEN Append(open, i.op)
             ELSE IF i.op = 5 THEN Append(Front(open), 5) ELSE open
  /\ UNCHANGED <<ret, s>>

Close ==
  /\ s = None /\ open # <<>>
  /\ code' = Append(code, End)
  /\ v' = Apply(Ctx(ret), v, End)
  /\ open' = Front(open)
  /\ UNCHANGED <<ret, s>>

Start == s = None /\ open = <<>> /\ v.ok /\ s' = E!Begin(ret) /\ UNCHANGED <<ret, code, open, v>>
Step ==
  /\ s.st = "run"
  /\ \E t \in E!Steps(Ctx(ret), code, s) : s' = t
  /\ UNCHANGED <<ret, code, open, v>>

\* room is left for the ends, and for one more instruction in each
Next ==
  \/ \E i \in Plains \cup Branches : Add(i)
  \/ \E i \in Constructs : Len(code) + Len(open) + 1 < MaxLen + 1 /\ Add(i)
  \/ open # <<>> /\ Top(open) = 4 /\ Add(Else)
  \/ Close
  \/ Start
  \/ Step

RECURSIVE GoesWrong(_)
GoesWrong(t) ==
  IF t.st = "run" THEN \E u \in E!Steps(Ctx(ret), code, t) : GoesWrong(u) ELSE t.st = "wrong"

BranchFree == \A k \in 1..Len(code) : code[k].op \notin {0, 12, 13, 14, 15}

Sound == s.st # "wrong"
Tight == (s = None /\ open = <<>> /\ ~v.ok /\ BranchFree) => GoesWrong(E!Begin(ret))
=============================================================================
