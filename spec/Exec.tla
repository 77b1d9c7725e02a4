-------------------------------- MODULE Exec --------------------------------
(* Execution of a function body with values reduced to their types: a value   *)
(* stack, a stack of labels and a program counter. Every conditional may go   *)
(* either way. Nothing here looks at the validation rules; what a program     *)
(* does when it is executed is defined on its own, so that "accepted programs  *)
(* do not go wrong" is a statement about two independent definitions.         *)
(*                                                                            *)
(* A run is [pc, vals, labs, st]: next instruction (from 1), value types,     *)
(* labels [cont, args, out, h] (where a branch continues, what it carries,    *)
(* what falling through leaves, value height at entry), and "run", "done"     *)
(* or "wrong".                                                                *)
EXTENDS Opcodes

Last(s) == s[Len(s)]
BlockOut(bt) == IF bt = Void THEN <<>> ELSE <<bt>>

\* from position j, not inside any construct opened after it: the matching end, or the else if els
RECURSIVE Seek(_, _, _, _)
Seek(code, j, d, els) ==
  LET op == code[j].op
  IN IF op = 11 /\ d = 0 THEN j
     ELSE IF op = 5 /\ d = 0 /\ els THEN j
     ELSE Seek(code, j + 1, IF op \in {2, 3, 4} THEN d + 1 ELSE IF op = 11 THEN d - 1 ELSE d, els)

Begin(ret) ==
  [pc |-> 1, vals |-> <<>>, st |-> "run",
   labs |-> << [cont |-> 0, args |-> ret, out |-> ret, h |-> 0] >>]

Wrong(s) == [s EXCEPT !.st = "wrong"]
Done(s)  == [s EXCEPT !.st = "done"]
Goto(s, n) == [s EXCEPT !.pc = n]
Step1(s) == Goto(s, s.pc + 1)

\* removes values of types ts from the top, without touching those of enclosing constructs
CanTake(s, ts) ==
  LET n == Len(s.vals) k == Len(ts)
  IN n - k >= Last(s.labs).h /\ SubSeq(s.vals, n - k + 1, n) = ts
Take(s, ts) == [s EXCEPT !.vals = SubSeq(@, 1, Len(@) - Len(ts))]
Give(s, ts) == [s EXCEPT !.vals = @ \o ts]

\* ordinary instruction
Plain(s, ins, outs) ==
  IF CanTake(s, ins) THEN { Step1(Give(Take(s, ins), outs)) } ELSE { Wrong(s) }

\* a branch to label i carries its arguments and drops everything above the label's height
Jump(s, i) ==
  IF i >= Len(s.labs) THEN Wrong(s)
  ELSE LET k == Len(s.labs) - i
           l == s.labs[k]
       IN IF ~CanTake(s, l.args) THEN Wrong(s)
          ELSE IF l.cont = 0 THEN Done(s)
          ELSE [s EXCEPT !.vals = SubSeq(@, 1, l.h) \o l.args,
                         !.labs = SubSeq(@, 1, k - 1),
                         !.pc = l.cont]

Inside(s, cont, args, out) ==
  [s EXCEPT !.labs = Append(@, [cont |-> cont, args |-> args, out |-> out, h |-> Len(s.vals)])]

RECURSIVE Nth(_, _, _)
Nth(runs, k, i) ==
  IF k > Len(runs) THEN 0 ELSE IF i < runs[k][2] THEN runs[k][1] ELSE Nth(runs, k + 1, i - runs[k][2])

\* all the states one instruction can lead to
Steps(c, code, s) ==
  LET ins == code[s.pc]
      op == ins.op
      n1 == IF Len(ins.n) > 0 THEN ins.n[1] ELSE 0
      out == BlockOut(ins.bt)
      end == Seek(code, s.pc + 1, 0, FALSE)
      i32 == <<I32>>
  IN
  CASE op = 0 -> { Done(s) }
    [] op = 1 -> { Step1(s) }
    [] op = 2 -> { Step1(Inside(s, end + 1, out, out)) }
    [] op = 3 -> { Step1(Inside(s, s.pc, <<>>, out)) }
    [] op = 4 -> IF ~CanTake(s, i32) THEN { Wrong(s) }
                 ELSE LET t == Inside(Take(s, i32), end + 1, out, out)
                          e == Seek(code, s.pc + 1, 0, TRUE)
                      IN { Step1(t), Goto(t, IF code[e].op = 5 THEN e + 1 ELSE e) }
    [] op = 5 -> { Goto(s, end) }
    [] op = 11 -> LET l == Last(s.labs)
                  IN IF SubSeq(s.vals, l.h + 1, Len(s.vals)) # l.out THEN { Wrong(s) }
                     ELSE IF Len(s.labs) = 1 THEN { Done(s) }
                     ELSE { Step1([s EXCEPT !.labs = SubSeq(@, 1, Len(@) - 1)]) }
    [] op = 12 -> { Jump(s, n1) }
    [] op = 13 -> IF ~CanTake(s, i32) THEN { Wrong(s) }
                  ELSE { Jump(Take(s, i32), n1), Step1(Take(s, i32)) }
    [] op = 14 -> IF ~CanTake(s, i32) THEN { Wrong(s) }
                  ELSE { Jump(Take(s, i32), ins.n[k]) : k \in 1..Len(ins.n) }
    [] op = 15 -> IF CanTake(s, c.ret) THEN { Done(s) } ELSE { Wrong(s) }
    [] op = 16 -> IF n1 < Len(c.funcs) THEN Plain(s, c.funcs[n1 + 1][1], c.funcs[n1 + 1][2]) ELSE { Wrong(s) }
    [] op = 17 -> IF n1 < Len(c.types) /\ ins.n[2] < c.ntab
                  THEN Plain(s, c.types[n1 + 1][1] \o i32, c.types[n1 + 1][2]) ELSE { Wrong(s) }
    [] op = 26 -> IF Len(s.vals) > Last(s.labs).h THEN { Step1(Take(s, <<0>>)) } ELSE { Wrong(s) }
    [] op = 27 -> IF Len(s.vals) < Last(s.labs).h + 3 THEN { Wrong(s) }
                  ELSE LET t == s.vals[Len(s.vals) - 1] IN Plain(s, <<t, t, I32>>, <<t>>)
    [] op \in 32..34 -> LET t == Nth(c.locals, 1, n1)
                        IN IF t = 0 THEN { Wrong(s) }
                           ELSE Plain(s, IF op = 32 THEN <<>> ELSE <<t>>, IF op = 33 THEN <<>> ELSE <<t>>)
    [] op = 35 -> IF n1 < Len(c.globs) THEN Plain(s, <<>>, <<c.globs[n1 + 1][1]>>) ELSE { Wrong(s) }
    [] op = 36 -> IF n1 < Len(c.globs) /\ c.globs[n1 + 1][2] = 1
                  THEN Plain(s, <<c.globs[n1 + 1][1]>>, <<>>) ELSE { Wrong(s) }
    [] op \in 40..64 /\ c.nmem = 0 -> { Wrong(s) }
    [] IsLoad(op)  -> Plain(s, i32, <<MemTable[op][1]>>)
    [] IsStore(op) -> Plain(s, i32 \o <<MemTable[op][1]>>, <<>>)
    [] op = 63 -> Plain(s, <<>>, i32)
    [] op = 64 -> Plain(s, i32, i32)
    [] op \in 65..68 -> Plain(s, <<>>, <<ConstType(op)>>)
    [] OTHER -> Plain(s, SigTable[op][1], SigTable[op][2])
=============================================================================
