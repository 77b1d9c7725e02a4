------------------------------- MODULE Typing -------------------------------
(* The typing rules of WebAssembly 1.0 as transitions on an operand stack    *)
(* and a stack of enclosing constructs. Both stacks grow to the right.       *)
(*                                                                           *)
(* A validator state is                                                      *)
(*   ok    - no rule was broken so far                                       *)
(*   opds  - operand types; AnyT stands for a type chosen by dead code        *)
(*   ctrls - constructs [op, lab, out, h, dead]: what a branch to it takes,  *)
(*           what it leaves, operand height at its start, rest is dead code  *)
(*   got   - type found by the last pop                                      *)
(*                                                                           *)
(* A context c has types, funcs, ntab, nmem, globs, locals, ret. Function    *)
(* types are <<params, results>>, globals <<type, mutability>>, locals are   *)
(* runs <<type, count>>.                                                     *)
(* An instruction is [op, bt, n]: opcode, block type, and the index          *)
(* immediates in the order they are written.                                 *)
EXTENDS Opcodes

AnyT == 0

BadState == [ok |-> FALSE, opds |-> <<>>, ctrls |-> <<>>, got |-> 0]
Top(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

Pop(v, t) ==
  IF ~v.ok THEN v
  ELSE LET n == Len(v.opds)
           f == Top(v.ctrls)
       IN IF n = f.h
          THEN IF f.dead THEN [v EXCEPT !.got = t] ELSE BadState
          ELSE LET a == v.opds[n]
               IN IF a = t \/ a = AnyT \/ t = AnyT
                  THEN [v EXCEPT !.opds = SubSeq(@, 1, n - 1), !.got = IF a = AnyT THEN t ELSE a]
                  ELSE BadState

RECURSIVE PopAll(_, _)
PopAll(v, ts) == IF ts = <<>> THEN v ELSE PopAll(Pop(v, Top(ts)), Front(ts))

PushAll(v, ts) == IF v.ok THEN [v EXCEPT !.opds = @ \o ts] ELSE v

Kill(v) ==
  IF ~v.ok THEN v
  ELSE LET n == Len(v.ctrls)
       IN [v EXCEPT !.opds = SubSeq(@, 1, v.ctrls[n].h), !.ctrls[n].dead = TRUE]

Enter(v, op, lab, out) ==
  IF ~v.ok THEN v
  ELSE [v EXCEPT !.ctrls = Append(@, [op |-> op, lab |-> lab, out |-> out,
                                      h |-> Len(v.opds), dead |-> FALSE])]

\* leaves the innermost construct; its results are not pushed yet
Leave(v) ==
  IF ~v.ok THEN v
  ELSE LET f == Top(v.ctrls)
           w == PopAll(v, f.out)
       IN IF w.ok /\ Len(w.opds) = f.h THEN [w EXCEPT !.ctrls = Front(@)] ELSE BadState

EndOf(v)  == IF ~v.ok THEN v ELSE PushAll(Leave(v), Top(v.ctrls).out)
ElseOf(v) == IF ~v.ok THEN v
             ELSE LET f == Top(v.ctrls) IN Enter(Leave(v), 5, f.out, f.out)

\* the label with index n, or FALSE in .ok when there is none
HasLabel(v, n) == n < Len(v.ctrls)
Label(v, n) == v.ctrls[Len(v.ctrls) - n].lab

\* type of the local with index i in the runs from k on, AnyT if there is none
RECURSIVE LocalFrom(_, _, _)
LocalFrom(runs, k, i) ==
  IF k > Len(runs) THEN AnyT
  ELSE IF i < runs[k][2] THEN runs[k][1]
  ELSE LocalFrom(runs, k + 1, i - runs[k][2])
LocalType(c, i) == LocalFrom(c.locals, 1, i)

\* the state in which a function body with results ret is entered
FuncStart(ret) ==
  [ok |-> TRUE, got |-> 0, opds |-> <<>>,
   ctrls |-> << [op |-> 0, lab |-> ret, out |-> ret, h |-> 0, dead |-> FALSE] >>]

Results(bt) == IF bt = Void THEN <<>> ELSE <<bt>>

Apply1(c, v, ins) ==
  LET op == ins.op
      n1 == IF Len(ins.n) >= 1 THEN ins.n[1] ELSE 0
  IN
  CASE op = 0  -> Kill(v)
    [] op = 1  -> v
    [] op = 2  -> Enter(v, 2, Results(ins.bt), Results(ins.bt))
    [] op = 3  -> Enter(v, 3, <<>>, Results(ins.bt))
    [] op = 4  -> Enter(Pop(v, I32), 4, Results(ins.bt), Results(ins.bt))
    [] op = 5  -> ElseOf(v)
    [] op = 11 -> IF Top(v.ctrls).op = 4 THEN EndOf(ElseOf(v)) ELSE EndOf(v)
    [] op = 12 -> IF HasLabel(v, n1) THEN Kill(PopAll(v, Label(v, n1))) ELSE BadState
    [] op = 13 -> IF HasLabel(v, n1)
                  THEN PushAll(PopAll(Pop(v, I32), Label(v, n1)), Label(v, n1)) ELSE BadState
    [] op = 14 -> IF /\ \A i \in 1..Len(ins.n) : HasLabel(v, ins.n[i])
                     /\ \A i \in 1..Len(ins.n) : Label(v, ins.n[i]) = Label(v, Top(ins.n))
                  THEN Kill(PopAll(Pop(v, I32), Label(v, Top(ins.n)))) ELSE BadState
    [] op = 15 -> Kill(PopAll(v, c.ret))
    [] op = 16 -> IF n1 < Len(c.funcs)
                  THEN PushAll(PopAll(v, c.funcs[n1 + 1][1]), c.funcs[n1 + 1][2]) ELSE BadState
    [] op = 17 -> IF n1 < Len(c.types) /\ ins.n[2] < c.ntab
                  THEN PushAll(PopAll(Pop(v, I32), c.types[n1 + 1][1]), c.types[n1 + 1][2])
                  ELSE BadState
    [] op = 26 -> Pop(v, AnyT)
    [] op = 27 -> LET a == Pop(Pop(v, I32), AnyT)
                      b == Pop(a, a.got)
                  IN PushAll(b, <<b.got>>)
    [] op = 32 -> LET t == LocalType(c, n1) IN IF t = AnyT THEN BadState ELSE PushAll(v, <<t>>)
    [] op = 33 -> LET t == LocalType(c, n1) IN IF t = AnyT THEN BadState ELSE Pop(v, t)
    [] op = 34 -> LET t == LocalType(c, n1)
                  IN IF t = AnyT THEN BadState ELSE PushAll(Pop(v, t), <<t>>)
    [] op = 35 -> IF n1 < Len(c.globs) THEN PushAll(v, <<c.globs[n1 + 1][1]>>) ELSE BadState
    [] op = 36 -> IF n1 < Len(c.globs) /\ c.globs[n1 + 1][2] = 1
                  THEN Pop(v, c.globs[n1 + 1][1]) ELSE BadState
    [] IsLoad(op)  -> IF c.nmem > 0 /\ n1 <= MemTable[op][2]
                      THEN PushAll(Pop(v, I32), <<MemTable[op][1]>>) ELSE BadState
    [] IsStore(op) -> IF c.nmem > 0 /\ n1 <= MemTable[op][2]
                      THEN Pop(Pop(v, MemTable[op][1]), I32) ELSE BadState
    [] op = 63 -> IF n1 < c.nmem THEN PushAll(v, <<I32>>) ELSE BadState
    [] op = 64 -> IF n1 < c.nmem THEN PushAll(Pop(v, I32), <<I32>>) ELSE BadState
    [] op \in 65..68 -> PushAll(v, <<ConstType(op)>>)
    [] OTHER   -> PushAll(PopAll(v, SigTable[op][1]), SigTable[op][2])

\* the state after one more instruction
Apply(c, v, ins) == IF v.ok THEN Apply1(c, v, ins) ELSE v

\* constant expressions: only constants and reads of immutable globals, g of which are visible
ConstApply(c, v, ins, g) ==
  IF ~v.ok THEN v
  ELSE CASE ins.op \in 65..68 -> PushAll(v, <<ConstType(ins.op)>>)
         [] ins.op = 35 -> IF ins.n[1] < g /\ c.globs[ins.n[1] + 1][2] = 0
                           THEN PushAll(v, <<c.globs[ins.n[1] + 1][1]>>) ELSE BadState
         [] ins.op = 11 -> EndOf(v)
         [] OTHER -> BadState
=============================================================================
