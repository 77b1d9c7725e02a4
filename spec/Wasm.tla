-------------------------------- MODULE Wasm --------------------------------
(* Decoding and validation of the WebAssembly 1.0 binary format as a         *)
(* deterministic pushdown machine. One step reads one field of the format.   *)
(*                                                                           *)
(* Registers of the machine m:                                               *)
(*   cid   case being decoded          st    "run", "ok" or "err"            *)
(*   pos   next byte                   err   <<kind, byte>> of the fault     *)
(*   wins  open windows [lim, need]: last readable byte, exact end           *)
(*   todo  what remains to be read     acc   fields of the current entry     *)
(*   last  greatest section id seen    tot   elements of a run-length vector *)
(*   mode  how instructions are typed: "none", "func", "const"               *)
(*   v     validator state (Typing)    cg/ct visible globals and type of a   *)
(*   cx    module context                    constant expression             *)
(*   fat   some run-length vector has 2^24 elements or more                  *)
(*   bulk  elements of all run-length vectors, in units of 16                *)
(*   tok, match   next element of the recorded trace, and whether everything *)
(*                read so far is what the implementation reported            *)
(*                                                                           *)
(* The machine runs over recorded cases: input bytes together with what the  *)
(* implementation reported for them. Every element the machine reads has to  *)
(* be the next element reported; the invariant Conform demands that the two  *)
(* agree on the outcome. As decoding goes on after a validation rule is      *)
(* broken, cx.valid is the verdict on a module that decodes.                 *)
EXTENDS Typing, Leb, Utf8, FiniteSets, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.WHASM_CASES)
Preludes == ndJsonDeserialize(IOEnv.WHASM_PRELUDES)
CheckKinds == IOEnv.WHASM_KINDS \in {"1", "2"}
CheckTexts == IOEnv.WHASM_KINDS = "2"
CheckSpace == IOEnv.WHASM_KINDS = "3"

VARIABLE m

-----------------------------------------------------------------------------
(* Faults *)
EOF == <<1, 0>>
VARIANT(b) == <<2, b>>
OORS == <<3, 0>>
OORU == <<4, 0>>
UTF8 == <<5, 0>>
OPCODE == <<6, 0>>
MAGIC == <<7, 0>>
VERSION == <<8, 0>>
SECORDER(b) == <<9, b>>
SECID(b) == <<10, b>>
SIZE == <<13, 0>>
UNSPEC == <<99, 0>>            \* a fault whose kind is not specified

Fail(s, e) == [s EXCEPT !.st = "err", !.err = e]

-----------------------------------------------------------------------------
(* Input, windows, trace *)
Case(s) == Cases[s.cid]
In(s) == IF s.cid > 0 THEN Cases[s.cid].b ELSE Preludes[-s.cid].b
Lim(s) == s.wins[Len(s.wins)].lim

Emit(s, t) ==
  IF ~s.match \/ s.tok = 0 THEN s
  ELSE LET T == Case(s).t
       IN IF s.tok <= Len(T) /\ T[s.tok] = t THEN [s EXCEPT !.tok = @ + 1]
          ELSE [s EXCEPT !.match = FALSE]

\* n equal elements
EmitN(s, t, n) ==
  IF ~s.match \/ s.tok = 0 THEN s
  ELSE LET T == Case(s).t
       IN IF /\ s.tok + n - 1 <= Len(T)
             /\ \A i \in s.tok..(s.tok + n - 1) : T[i] = t
          THEN [s EXCEPT !.tok = @ + n] ELSE [s EXCEPT !.match = FALSE]

\* a module built in memory, whose code may have what no binary has (harness/src/built.rs)
Built(s) == s.cid > 0 /\ Case(s).k = <<"built">>

Do(s, tasks) == [s EXCEPT !.todo = tasks \o Tail(@)]     \* replace the current task
Done(s) == [s EXCEPT !.todo = Tail(@)]
At(s, p) == [s EXCEPT !.pos = p]
Keep(s, x) == [s EXCEPT !.acc = Append(@, x)]

Task(k) == [k |-> k]
LebFault(r, sg) == IF r.st = "eof" THEN EOF ELSE IF sg THEN OORS ELSE OORU
ReadU32(s) == U32(In(s), s.pos, Lim(s))

\* n raw bytes are available
Avail(s, n) == n <= Lim(s) - s.pos + 1
Slice(s, n) == SubSeq(In(s), s.pos, s.pos + n - 1)

-----------------------------------------------------------------------------
(* Elements that can be decoded on their own. A type is written as the       *)
(* sequence of its constructors from the outside in.                         *)
IntKinds == [u8  |-> <<8, FALSE>>, u16 |-> <<16, FALSE>>, u32 |-> <<32, FALSE>>, u64 |-> <<64, FALSE>>,
             i8  |-> <<8, TRUE>>,  i16 |-> <<16, TRUE>>,  i32 |-> <<32, TRUE>>,  i64 |-> <<64, TRUE>>]
RawKinds == [byte |-> 1, f32 |-> 4, f64 |-> 8]
ArrKinds == [a0 |-> 0, a1 |-> 1, a2 |-> 2, a3 |-> 3, a4 |-> 4, a5 |-> 5, a6 |-> 6, a7 |-> 7, a8 |-> 8]

TokByte(b) == <<300, b>>
TokLen(le4) == <<301>> \o le4
TokName(b) == <<302>> \o b
TokNum(b) == <<303>> \o b
TokSkip(n) == <<304>> \o LE4(n)

\* one scalar: outcome, element reported, next position
Scalar(s, k) ==
  CASE k \in DOMAIN IntKinds ->
         LET w == IntKinds[k][1]
             sg == IntKinds[k][2]
             r == LebRead(In(s), s.pos, Lim(s), w, sg)
         IN IF r.st = "ok" THEN [st |-> "ok", t |-> TokNum(r.val), pos |-> r.pos]
            ELSE [st |-> "err", t |-> LebFault(r, sg), pos |-> 0]
    [] k \in DOMAIN RawKinds ->
         IF Avail(s, RawKinds[k])
         THEN [st |-> "ok", pos |-> s.pos + RawKinds[k],
               t |-> IF k = "byte" THEN TokByte(In(s)[s.pos]) ELSE TokNum(Slice(s, RawKinds[k]))]
         ELSE [st |-> "err", t |-> EOF, pos |-> 0]
    [] k = "valtype" ->
         IF ~Avail(s, 1) THEN [st |-> "err", t |-> EOF, pos |-> 0]
         ELSE LET b == In(s)[s.pos]
              IN IF b \in ValTypes THEN [st |-> "ok", t |-> TokByte(b), pos |-> s.pos + 1]
                 ELSE [st |-> "err", t |-> VARIANT(b), pos |-> 0]

ReadingKinds == {"vec", "uvec", "cvec", "run", "sized", "consume"}
IsScalar(k) == k \in DOMAIN IntKinds \/ k \in DOMAIN RawKinds \/ k = "valtype"

OpenWindow(s, size, p) ==      \* size: 4 bytes; p: first byte inside
  LET n == NatOf(size)
      need == IF n >= BIG THEN BIG ELSE p + n - 1
  IN [s EXCEPT !.pos = p, !.wins = Append(@, [lim |-> Min(Lim(s), need), need |-> need])]

\* The bulk b after a further run of n elements.
Bulk(b, n) == LET k == NatOf(n) \div 16 + 1 IN IF b + k > 67108864 THEN 67108864 ELSE b + k

Element(s) ==
  LET d == Head(s.todo).d
      k == Head(d)
      r == ReadU32(s)
  IN
  CASE IsScalar(k) ->
         LET x == Scalar(s, k)
         IN IF x.st = "ok" THEN Emit(At(Done(s), x.pos), x.t) ELSE Fail(s, x.t)
    [] k \in DOMAIN ArrKinds -> Do(s, << [k |-> "rep", n |-> ArrKinds[k], d |-> Tail(d)] >>)
    [] k \in {"vec", "uvec"} ->
         IF r.st # "ok" THEN Fail(s, LebFault(r, FALSE))
         ELSE At(Do(s, << [k |-> "rep", n |-> NatOf(r.val), d |-> Tail(d)],
                          [k |-> "emit", t |-> TokLen(r.val)] >>), r.pos)
    [] k = "cvec" ->
         IF r.st # "ok" THEN Fail(s, LebFault(r, FALSE))
         ELSE [At(Do(s, << [k |-> "rep", n |-> NatOf(r.val), d |-> <<"run">> \o Tail(d)],
                           Task("runs") >>), r.pos) EXCEPT !.tot = <<0, 0, 0, 0>>]
    [] k = "run" ->
         IF r.st # "ok" THEN Fail(s, LebFault(r, FALSE))
         ELSE LET x == Scalar(At(s, r.pos), d[2])
                  sum == Add4(s.tot, r.val)
              IN IF x.st # "ok" THEN Fail(s, x.t)
                 ELSE IF sum[5] # 0 THEN Fail(s, OORU)
                 ELSE EmitN([At(Done(s), x.pos) EXCEPT !.tot = SubSeq(sum, 1, 4), !.fat = @ \/ sum[4] > 0, !.bulk = Bulk(@, r.val)], x.t, NatOf(r.val))
    [] k = "sized" ->
         IF r.st # "ok" THEN Fail(s, LebFault(r, FALSE))
         ELSE OpenWindow(Do(s, << [k |-> "type", d |-> Tail(d)], Task("close") >>), r.val, r.pos)
    [] k = "consume" ->
         Emit(At(Done(s), Lim(s) + 1), TokSkip(Lim(s) + 1 - s.pos))
    [] OTHER -> Do(s, << Task(k) >>)                   \* an entry of a module, or a module

Repeat(s) ==
  LET t == Head(s.todo)
  IN IF t.n = 0 THEN Done(s)
     ELSE Do(s, << [k |-> "type", d |-> t.d], [t EXCEPT !.n = @ - 1] >>)

CloseWindow(s) ==
  IF s.pos # s.wins[Len(s.wins)].need + 1 THEN Fail(s, SIZE)
  ELSE [Done(s) EXCEPT !.wins = Front(@)]

-----------------------------------------------------------------------------
(* Fields of entries. They are reported as they are read, and kept in acc.   *)
FieldU32(s) ==
  LET r == ReadU32(s)
  IN IF r.st # "ok" THEN Fail(s, LebFault(r, FALSE))
     ELSE Keep(Emit(At(Done(s), r.pos), TokNum(r.val)), r.val)

FieldTag(s) ==
  IF ~Avail(s, 1) THEN Fail(s, EOF)
  ELSE LET b == In(s)[s.pos]
       IN IF b \notin Head(s.todo).of THEN Fail(s, VARIANT(b))
          ELSE Keep(Emit(At(Done(s), s.pos + 1), TokByte(b)), <<b>>)

FieldName(s) ==
  LET r == ReadU32(s)
      n == NatOf(r.val)
      q == At(s, r.pos)
  IN IF r.st # "ok" THEN Fail(s, LebFault(r, FALSE))
     ELSE IF ~Avail(q, n) THEN Fail(s, EOF)
     ELSE IF ~WellFormed(In(s), r.pos, r.pos + n - 1) THEN Fail(s, UTF8)
     ELSE LET b == Slice(q, n)
              d == At(Done(s), r.pos + n)
          IN IF Head(s.todo).k = "skipname" THEN d ELSE Keep(Emit(d, TokName(b)), b)

\* a list of value types
FieldVals(s) ==
  LET r == ReadU32(s)
      n == NatOf(r.val)
      q == At(s, r.pos)
      have == Min(n, Lim(s) - r.pos + 1)
      bad == {i \in 0..(have - 1) : In(s)[r.pos + i] \notin ValTypes}
  IN IF r.st # "ok" THEN Fail(s, LebFault(r, FALSE))
     ELSE IF bad # {}
          THEN Fail(s, VARIANT(In(s)[r.pos + (CHOOSE i \in bad : \A j \in bad : i <= j)]))
     ELSE IF have < n THEN Fail(s, EOF)
     ELSE Keep(Emit(At(Done(s), r.pos + n), <<306>> \o Slice(q, n)), Slice(q, n))

FieldLimits(s) ==
  IF ~Avail(s, 1) THEN Fail(s, EOF)
  ELSE LET f == In(s)[s.pos]
           a == U32(In(s), s.pos + 1, Lim(s))
           b == U32(In(s), a.pos, Lim(s))
       IN IF f \notin {0, 1} THEN Fail(s, VARIANT(f))
          ELSE IF a.st # "ok" THEN Fail(s, LebFault(a, FALSE))
          ELSE IF f = 0
               THEN Keep(Emit(At(Done(s), a.pos), <<305, 0>> \o a.val), <<0>> \o a.val)
          ELSE IF b.st # "ok" THEN Fail(s, LebFault(b, FALSE))
          ELSE Keep(Emit(At(Done(s), b.pos), <<305, 1>> \o a.val \o b.val), <<1>> \o a.val \o b.val)

FieldBytes(s) ==
  LET r == ReadU32(s)
      n == NatOf(r.val)
      q == At(s, r.pos)
  IN IF r.st # "ok" THEN Fail(s, LebFault(r, FALSE))
     ELSE IF ~Avail(q, n) THEN Fail(s, EOF)
     ELSE Emit(At(Done(s), r.pos + n), <<307>> \o Slice(q, n))

Tag(S) == [k |-> "tag", of |-> S]
Name == Task("name")
Vals == Task("vals")
Limits == Task("limits")
Index == Task("u32")

-----------------------------------------------------------------------------
(* Instructions: the task "expr" holds the open constructs ns, innermost     *)
(* last: "x" the expression, "b" block or loop, "i" if, "e" else. A single   *)
(* instruction is decoded with no expression around it.                      *)
Ins(op, bt, n) == [op |-> op, bt |-> bt, n |-> n]

Typed(s, ins) ==
  CASE s.mode = "func"  -> [s EXCEPT !.v = Apply(s.cx, @, ins)]
    [] s.mode = "const" -> [s EXCEPT !.v = ConstApply(s.cx, @, ins, s.cg)]
    [] OTHER -> s

\* n indices from p on, n > 0; by halves, to keep the recursion shallow
RECURSIVE ReadIndices(_, _, _)
ReadIndices(s, p, n) ==
  IF n = 1
  THEN LET r == U32(In(s), p, Lim(s)) IN IF r.st # "ok" THEN r ELSE [r EXCEPT !.val = <<@>>]
  ELSE LET a == ReadIndices(s, p, n \div 2)
       IN IF a.st # "ok" THEN a
          ELSE LET b == ReadIndices(s, a.pos, n - n \div 2)
               IN IF b.st # "ok" THEN b ELSE [b EXCEPT !.val = a.val \o @]

\* ss[i] to ss[j], one after the other
RECURSIVE Cat(_, _, _)
Cat(ss, i, j) ==
  IF i > j THEN <<>>
  ELSE IF i = j THEN ss[i]
  ELSE LET mid == (i + j) \div 2 IN Cat(ss, i, mid) \o Cat(ss, mid + 1, j)
Concat(ss) == Cat(ss, 1, Len(ss))

Nats(ss) == [i \in 1..Len(ss) |-> NatOf(ss[i])]

Nest(s, ns) ==                 \* the task goes on with the constructs ns, or ends
  IF ns = <<>> THEN Done(s) ELSE Do(s, << [k |-> "expr", ns |-> ns] >>)

\* a construct of a module built in memory, with a list of results
Blocks(s, ns, op) ==
  LET n == In(s)[s.pos + 2]
      bt == IF n = 0 THEN Void ELSE In(s)[s.pos + 3]
      q == Typed(At(Do(s, << [k |-> "expr", ns |-> Append(ns, IF op = 4 THEN "i" ELSE "b")] >>), s.pos + 3 + n),
                 Ins(op, bt, <<>>))
  IN IF n <= 1 THEN q ELSE [q EXCEPT !.v.ok = FALSE]

Instruction(s) ==
  LET ns == Head(s.todo).ns
      p == s.pos
  IN
  IF ~Avail(s, 1) THEN Fail(s, EOF)
  ELSE
  LET op == In(s)[p]
      im == Imm(op)
      plain(next, tok, ins) == Typed(Emit(At(Nest(s, ns), next), tok), ins)
      stray == [At(s, p + 1) EXCEPT !.v.ok = FALSE]        \* a marker that closes nothing
      indices(n) ==
        LET r == ReadIndices(s, p + 1, n)
        IN IF r.st # "ok" THEN Fail(s, LebFault(r, FALSE))
           ELSE plain(r.pos, <<op>> \o Concat(r.val), Ins(op, Void, Nats(r.val)))
  IN
  CASE im = "bad"  -> IF Built(s) /\ op = 6 THEN stray ELSE Fail(s, VARIANT(op))
    [] im = "none" -> plain(p + 1, <<op>>, Ins(op, Void, <<>>))
    [] im = "block" ->
         IF ~Avail(s, 2) THEN Fail(s, EOF)
         ELSE LET bt == In(s)[p + 1]
              IN IF Built(s) /\ bt = 65 THEN Blocks(s, ns, op)
                 ELSE IF bt \notin ValTypes \union {Void} THEN Fail(s, VARIANT(bt))
                 ELSE Typed(Emit(At(Do(s, << [k |-> "expr", ns |-> Append(ns, IF op = 4 THEN "i" ELSE "b")] >>),
                                    p + 2), <<op, bt>>),
                            Ins(op, bt, <<>>))
    [] im = "else" ->
         IF ns = <<>> THEN plain(p + 1, <<5>>, Ins(1, Void, <<>>))
         ELSE IF Top(ns) # "i" THEN IF Built(s) THEN stray ELSE Fail(s, OPCODE)
         ELSE Typed(Emit(At(Do(s, << [k |-> "expr", ns |-> Append(Front(ns), "e")] >>), p + 1), <<5>>),
                    Ins(5, Void, <<>>))
    [] im = "end" ->
         IF ns = <<>> THEN plain(p + 1, <<11>>, Ins(1, Void, <<>>))
         ELSE LET q == At(Nest(s, Front(ns)), p + 1)
                  e == IF Top(ns) = "i" THEN Emit(Emit(q, <<5>>), <<11>>) ELSE Emit(q, <<11>>)
              IN Typed(e, Ins(11, Void, <<>>))
    [] im = "idx"    -> indices(1)
    [] im = "idx2"   -> indices(2)
    [] im = "memarg" -> indices(2)
    [] im = "brtable" ->
         LET c == U32(In(s), p + 1, Lim(s))
         IN IF c.st # "ok" THEN Fail(s, LebFault(c, FALSE))
            ELSE LET r == ReadIndices(s, c.pos, NatOf(c.val) + 1)
                 IN IF r.st # "ok" THEN Fail(s, LebFault(r, FALSE))
                    ELSE plain(r.pos, <<14>> \o Concat(r.val), Ins(14, Void, Nats(r.val)))
    [] im \in {"i32", "i64"} ->
         LET r == LebRead(In(s), p + 1, Lim(s), IF im = "i32" THEN 32 ELSE 64, TRUE)
         IN IF r.st # "ok" THEN Fail(s, LebFault(r, TRUE))
            ELSE plain(r.pos, <<op>> \o r.val, Ins(op, Void, <<>>))
    [] OTHER ->
         LET n == IF im = "f32" THEN 4 ELSE 8
         IN IF ~Avail(s, n + 1) THEN Fail(s, EOF)
            ELSE plain(p + 1 + n, <<op>> \o SubSeq(In(s), p + 1, p + n), Ins(op, Void, <<>>))

Expr == [k |-> "expr", ns |-> <<"x">>]

-----------------------------------------------------------------------------
(* Entries *)
Rule(s, ok) == IF ok THEN s ELSE [s EXCEPT !.cx.valid = FALSE]      \* a validation rule

LimMin(l) == SubSeq(l, 2, 5)
LimMax(l) == SubSeq(l, 6, 9)
LimitsOk(l) == l[1] = 0 \/ Leq(LimMin(l), LimMax(l))
Pages == <<0, 0, 1, 0>>
MemOk(l) == LimitsOk(l) /\ Leq(LimMin(l), Pages) /\ (l[1] = 0 \/ Leq(LimMax(l), Pages))

ExtFunc(f) == <<0, Len(f[1])>> \o f[1] \o <<Len(f[2])>> \o f[2]
ExtTable(l) == <<1>> \o l
ExtMem(l) == <<2>> \o l
ExtGlobal(g) == <<3>> \o g

HasType(s, i) == NatOf(i) < Len(s.cx.types)
TypeAt(s, i) == IF HasType(s, i) THEN s.cx.types[NatOf(i) + 1] ELSE <<<<>>, <<>>>>

AddFunc(s, i) == Rule([s EXCEPT !.cx.funcs = Append(@, TypeAt(s, i))], HasType(s, i))
AddTable(s, l) == Rule([s EXCEPT !.cx.tabs = Append(@, l), !.cx.ntab = @ + 1],
                       LimitsOk(l) /\ s.cx.ntab = 0)
AddMem(s, l) == Rule([s EXCEPT !.cx.mems = Append(@, l), !.cx.nmem = @ + 1],
                     MemOk(l) /\ s.cx.nmem = 0)
AddGlobal(s, g) == [s EXCEPT !.cx.globs = Append(@, g)]

\* starts an entry, ends an entry
Entry(s, tasks) == [Do(s, tasks) EXCEPT !.acc = <<>>]
Close(s) == [Done(s) EXCEPT !.acc = <<>>]

\* type
TypeDone(s) ==
  LET f == <<s.acc[2], s.acc[3]>>
  IN Rule([Close(s) EXCEPT !.cx.types = Append(@, f)], Len(f[2]) <= 1)

\* import: module, name, kind, then what the kind asks for
ImportKind(s) ==
  LET k == s.acc[3][1]
  IN Do(s, (CASE k = 0 -> <<Index>>
              [] k = 1 -> <<Tag({112}), Limits>>
              [] k = 2 -> <<Limits>>
              [] OTHER -> <<Tag(ValTypes), Tag({0, 1})>>) \o <<Task("importdone")>>)
ImportDone(s) ==
  LET k == s.acc[3][1]
      c == Close(s)
      ext(q, t) == [q EXCEPT !.cx.iext = Append(@, t)]
  IN CASE k = 0 -> ext(AddFunc(c, s.acc[4]), ExtFunc(TypeAt(s, s.acc[4])))
       [] k = 1 -> ext(AddTable(c, s.acc[5]), ExtTable(s.acc[5]))
       [] k = 2 -> ext(AddMem(c, s.acc[4]), ExtMem(s.acc[4]))
       [] OTHER -> LET g == s.acc[4] \o s.acc[5]
                   IN ext([AddGlobal(c, g) EXCEPT !.cx.nimpg = @ + 1], ExtGlobal(g))

\* function declaration
DeclDone(s) == [AddFunc(Close(s), s.acc[1]) EXCEPT !.cx.decl = Append(@, s.acc[1])]

\* export: name, kind, index
ExportDone(s) ==
  LET k == s.acc[2][1]
      i == NatOf(s.acc[3])
      c == s.cx
      space == CASE k = 0 -> Len(c.funcs) [] k = 1 -> c.ntab [] k = 2 -> c.nmem [] OTHER -> Len(c.globs)
      ext == CASE k = 0 -> ExtFunc(c.funcs[i + 1]) [] k = 1 -> ExtTable(c.tabs[i + 1])
               [] k = 2 -> ExtMem(c.mems[i + 1]) [] OTHER -> ExtGlobal(c.globs[i + 1])
  IN IF i >= space THEN Rule(Close(s), FALSE)
     ELSE Rule([Close(s) EXCEPT !.cx.names = @ \union {s.acc[1]}, !.cx.eext = Append(@, ext)],
               s.acc[1] \notin c.names)

StartDone(s) ==
  LET i == NatOf(s.acc[1])
  IN Rule(Close(s), i < Len(s.cx.funcs) /\ s.cx.funcs[i + 1] = <<<<>>, <<>>>>)

\* constant expressions of type t in which g globals are visible
ConstExpr(s, t, g) ==
  [Do(s, << Expr, Task("constdone") >>)
     EXCEPT !.mode = IF s.cx.valid THEN "const" ELSE "none", !.cg = g, !.v = FuncStart(<<t>>)]
ConstDone(s) == [Rule(Done(s), s.mode = "none" \/ s.v.ok) EXCEPT !.mode = "none"]

GlobalInit(s) == ConstExpr(s, s.acc[1][1], s.cx.nimpg)
GlobalDone(s) == AddGlobal(Close(s), s.acc[1] \o s.acc[2])

ElemOffset(s) == ConstExpr(Rule(s, NatOf(s.acc[1]) < s.cx.ntab), I32, Len(s.cx.globs))
ElemFuncs(s) ==
  LET r == ReadU32(s)
  IN IF r.st # "ok" THEN Fail(s, LebFault(r, FALSE))
     ELSE At(Do(s, << [k |-> "rep", n |-> NatOf(r.val), d |-> <<"elemfunc">>],
                      [k |-> "emit", t |-> TokLen(r.val)] >>), r.pos)
ElemFunc(s) ==
  LET r == ReadU32(s)
  IN IF r.st # "ok" THEN Fail(s, LebFault(r, FALSE))
     ELSE Rule(Emit(At(Done(s), r.pos), TokNum(r.val)), NatOf(r.val) < Len(s.cx.funcs))

DataOffset(s) == ConstExpr(Rule(s, NatOf(s.acc[1]) < s.cx.nmem), I32, Len(s.cx.globs))

\* function body: locals in runs, then the code. Its type is the one declared in the same place.
AddRun(runs, t, n) ==
  IF n = 0 THEN runs
  ELSE IF runs # <<>> /\ Top(runs)[1] = t THEN Append(Front(runs), <<t, Top(runs)[2] + n>>)
  ELSE Append(runs, <<t, n>>)
JoinRuns(a, b) == IF b = <<>> THEN a ELSE AddRun(a, b[1][1], b[1][2]) \o Tail(b)
RECURSIVE ParamRuns(_)
ParamRuns(ts) ==
  IF ts = <<>> THEN <<>>
  ELSE IF Len(ts) = 1 THEN << <<ts[1], 1>> >>
  ELSE LET k == Len(ts) \div 2 IN JoinRuns(ParamRuns(SubSeq(ts, 1, k)), ParamRuns(SubSeq(ts, k + 1, Len(ts))))

FuncBegin(s) ==
  LET i == s.cx.nbody + 1
      known == i <= Len(s.cx.decl) /\ s.cx.valid
      f == IF known THEN TypeAt(s, s.cx.decl[i]) ELSE <<<<>>, <<>>>>
      r == ReadU32(s)
  IN IF r.st # "ok" THEN Fail(s, LebFault(r, FALSE))
     ELSE [At(Do(s, << [k |-> "rep", n |-> NatOf(r.val), d |-> <<"localrun">>], Task("localsdone"),
                       Expr, Task("funcdone") >>), r.pos)
             EXCEPT !.cx.nbody = i, !.cx.locals = ParamRuns(f[1]), !.cx.ret = f[2],
                    !.v = FuncStart(f[2]), !.mode = IF known THEN "func" ELSE "none",
                    !.acc = <<>>, !.tot = <<0, 0, 0, 0>>]
LocalRun(s) ==
  LET r == ReadU32(s)
      b == In(s)[r.pos]
      sum == Add4(s.tot, r.val)
      merge(runs) == IF NatOf(r.val) = 0 THEN runs
                     ELSE IF runs # <<>> /\ Top(runs)[1] = b
                          THEN Append(Front(runs), <<b, SubSeq(Add4(Top(runs)[2], r.val), 1, 4)>>)
                     ELSE Append(runs, <<b, r.val>>)
  IN IF r.st # "ok" THEN Fail(s, LebFault(r, FALSE))
     ELSE IF r.pos > Lim(s) THEN Fail(s, EOF)
     ELSE IF b \notin ValTypes THEN Fail(s, VARIANT(b))
     ELSE IF sum[5] # 0 THEN Fail(s, OORU)
     ELSE [At(Done(s), r.pos + 1)
             EXCEPT !.tot = SubSeq(sum, 1, 4), !.acc = merge(@), !.fat = @ \/ sum[4] > 0, !.bulk = Bulk(@, r.val),
                    !.cx.locals = AddRun(@, b, NatOf(r.val))]
LocalsDone(s) == Emit(Close(s), <<308>> \o Concat([i \in 1..Len(s.acc) |-> <<s.acc[i][1]>> \o s.acc[i][2]]))
FuncDone(s) == [Rule(Done(s), s.mode = "none" \/ s.v.ok) EXCEPT !.mode = "none"]

-----------------------------------------------------------------------------
(* Modules *)
Magic == <<0, 97, 115, 109>>
Version == <<1, 0, 0, 0>>
Preamble(s) ==
  IF ~Avail(s, 4) THEN Fail(s, EOF)
  ELSE IF Slice(s, 4) # Magic THEN Fail(s, MAGIC)
  ELSE IF ~Avail(s, 8) THEN Fail(s, EOF)
  ELSE IF Slice(At(s, s.pos + 4), 4) # Version THEN Fail(s, VERSION)
  ELSE At(Do(s, << Task("sections") >>), s.pos + 8)

\* sections that are absent are reported as empty
RECURSIVE Absent(_, _)
Absent(s, upto) ==
  IF s.last >= upto THEN s
  ELSE Absent(Emit([s EXCEPT !.last = @ + 1], <<100 + s.last + 1, 0, 0, 0, 0>>), upto)

Section(s) ==
  IF s.pos > Lim(s)
  THEN IF s.cx.nbody # Len(s.cx.decl) THEN Fail(s, UNSPEC) ELSE Done(Absent(s, 11))
  ELSE
  LET id == In(s)[s.pos]
      r == U32(In(s), s.pos + 1, Lim(s))
      body == CASE id = 0 -> << Task("skipname"), Task("skip") >>
                [] id = 8 -> << [k |-> "emit", t |-> <<108, 1, 0, 0, 0>>], Task("start") >>
                [] OTHER  -> << [k |-> "entries", id |-> id] >>
      after == IF id = 10 THEN << Task("close"), Task("paired"), Task("sections") >>
               ELSE << Task("close"), Task("sections") >>
      q == IF id = 0 THEN s ELSE [Absent(s, id - 1) EXCEPT !.last = id]
  IN IF id # 0 /\ id <= s.last THEN Fail(s, SECORDER(id))
     ELSE IF id > 11 THEN Fail(s, SECID(id))
     ELSE IF r.st # "ok" THEN Fail(s, LebFault(r, FALSE))
     ELSE OpenWindow(Do(q, body \o after), r.val, r.pos)

EntryKinds == << "functype", "import", "decl", "table", "mem", "global", "export", "none",
                 "elem", "code", "data" >>
Entries(s) ==
  LET r == ReadU32(s)
      id == Head(s.todo).id
  IN IF r.st # "ok" THEN Fail(s, LebFault(r, FALSE))
     ELSE At(Do(Emit(s, <<100 + id>> \o r.val),
                << [k |-> "rep", n |-> NatOf(r.val),
                    d |-> IF id = 10 THEN <<"sized", "func">> ELSE <<EntryKinds[id]>>] >>), r.pos)

Paired(s) == IF s.cx.nbody # Len(s.cx.decl) THEN Fail(s, UNSPEC) ELSE Done(s)

-----------------------------------------------------------------------------
(* The machine *)
FieldTasks == {"u32", "tag", "name", "skipname", "vals", "limits", "bytes"}
Field(s) ==
  LET k == Head(s.todo).k
  IN CASE k = "u32"    -> FieldU32(s)
       [] k = "tag"    -> FieldTag(s)
       [] k \in {"name", "skipname"} -> FieldName(s)
       [] k = "vals"   -> FieldVals(s)
       [] k = "limits" -> FieldLimits(s)
       [] OTHER        -> FieldBytes(s)

\* what an entry consists of
EntryTasks == {"functype", "import", "decl", "table", "mem", "global", "export", "start", "elem",
               "data", "limitsonly", "tabletype", "globaltype", "string", "blocktype", "mut", "elemtype"}
BeginEntry(s) ==
  LET k == Head(s.todo).k
  IN Entry(s, CASE k = "functype" -> << Tag({96}), Vals, Vals, Task("typedone") >>
                [] k = "import"   -> << Name, Name, Tag(0..3), Task("importkind") >>
                [] k = "decl"     -> << Index, Task("decldone") >>
                [] k = "table"    -> << Tag({112}), Limits, Task("tabledone") >>
                [] k = "mem"      -> << Limits, Task("memdone") >>
                [] k = "global"   -> << Tag(ValTypes), Tag({0, 1}), Task("globalinit"), Task("globaldone") >>
                [] k = "export"   -> << Name, Tag(0..3), Index, Task("exportdone") >>
                [] k = "start"    -> << Index, Task("startdone") >>
                [] k = "elem"     -> << Index, Task("elemoffset"), Task("elemfuncs") >>
                [] k = "data"     -> << Index, Task("dataoffset"), Task("bytes") >>
                [] k = "limitsonly" -> << Limits >>
                [] k = "tabletype"  -> << Tag({112}), Limits >>
                [] k = "globaltype" -> << Tag(ValTypes), Tag({0, 1}) >>
                [] k = "blocktype"  -> << Tag(ValTypes \union {Void}) >>
                [] k = "mut"        -> << Tag({0, 1}) >>
                [] k = "elemtype"   -> << Tag({112}) >>
                [] OTHER            -> << Name >>)

SemanticTasks == {"typedone", "importkind", "importdone", "decldone", "tabledone", "memdone",
                  "globalinit", "globaldone", "exportdone", "startdone", "elemoffset", "elemfuncs",
                  "elemfunc", "dataoffset", "constdone"}
Semantic(s) ==
  LET k == Head(s.todo).k
  IN CASE k = "typedone"   -> TypeDone(s)
       [] k = "importkind" -> ImportKind(s)
       [] k = "importdone" -> ImportDone(s)
       [] k = "decldone"   -> DeclDone(s)
       [] k = "tabledone"  -> AddTable(Close(s), s.acc[2])
       [] k = "memdone"    -> AddMem(Close(s), s.acc[1])
       [] k = "globalinit" -> GlobalInit(s)
       [] k = "globaldone" -> GlobalDone(s)
       [] k = "exportdone" -> ExportDone(s)
       [] k = "startdone"  -> StartDone(s)
       [] k = "elemoffset" -> ElemOffset(s)
       [] k = "elemfuncs"  -> ElemFuncs(s)
       [] k = "elemfunc"   -> ElemFunc(s)
       [] k = "dataoffset" -> DataOffset(s)
       [] OTHER            -> ConstDone(s)

BodyTasks == {"func", "localrun", "localsdone", "funcdone"}
Body(s) ==
  LET k == Head(s.todo).k
  IN CASE k = "func"       -> FuncBegin(s)
       [] k = "localrun"   -> LocalRun(s)
       [] k = "localsdone" -> LocalsDone(s)
       [] OTHER            -> FuncDone(s)

FrameTasks == {"module", "built", "sections", "entries", "paired", "skip"}
Frame(s) ==
  LET k == Head(s.todo).k
  IN CASE k \in {"module", "built"} -> Preamble(s)
       [] k = "sections" -> Section(s)
       [] k = "entries"  -> Entries(s)
       [] k = "paired"   -> Paired(s)
       [] OTHER          -> At(Done(s), Lim(s) + 1)

PlainTasks == {"emit", "runs"}
Plain(s) == LET t == Head(s.todo)
            IN IF t.k = "emit" THEN Emit(Done(s), t.t) ELSE Emit(Done(s), TokLen(s.tot))

SingleTasks == {"instr", "exprtop"}
Single(s) == Do(s, << IF Head(s.todo).k = "instr" THEN [k |-> "expr", ns |-> <<>>] ELSE Expr >>)

\* Bookkeeping that reads nothing is done along with the step before it.
Silent(s) ==
  LET t == Head(s.todo)
  IN \/ t.k \in {"rep", "emit", "runs", "localsdone", "funcdone"}
     \/ t.k = "type" /\ ~(IsScalar(Head(t.d)) \/ Head(t.d) \in ReadingKinds)
     \/ t.k \in EntryTasks
     \/ t.k \in SemanticTasks /\ t.k \notin {"elemfuncs", "elemfunc"}

Action(s) ==
  LET k == Head(s.todo).k
  IN CASE k = "expr"   -> Instruction(s)
       [] k = "type"   -> Element(s)
       [] k = "rep"    -> Repeat(s)
       [] k = "close"  -> CloseWindow(s)
       [] k \in BodyTasks     -> Body(s)
       [] k \in FrameTasks    -> Frame(s)
       [] k \in FieldTasks    -> Field(s)
       [] k \in EntryTasks    -> BeginEntry(s)
       [] k \in SemanticTasks -> Semantic(s)
       [] k \in SingleTasks   -> Single(s)
       [] OTHER               -> Plain(s)

RECURSIVE Settle(_)
Settle(s) == IF s.st = "run" /\ s.todo # <<>> /\ Silent(s) THEN Settle(Action(s)) ELSE s

Step(s) == IF s.todo = <<>> THEN [s EXCEPT !.st = "ok"] ELSE Settle(Action(s))

EmptyContext == [types |-> <<>>, funcs |-> <<>>, ntab |-> 0, tabs |-> <<>>, nmem |-> 0, mems |-> <<>>,
                 globs |-> <<>>, nimpg |-> 0, decl |-> <<>>, nbody |-> 0, names |-> {},
                 iext |-> <<>>, eext |-> <<>>, locals |-> <<>>, ret |-> <<>>, valid |-> TRUE]

StartState(c, d, len, tok) ==
  [cid |-> c, pos |-> 1, wins |-> << [lim |-> len, need |-> len] >>,
   todo |-> << [k |-> "type", d |-> d] >>, tok |-> tok, match |-> TRUE, st |-> "run", err |-> <<0, 0>>,
   last |-> 0, mode |-> "none", v |-> BadState, cg |-> 0, ct |-> 0, acc |-> <<>>,
   tot |-> <<0, 0, 0, 0>>, fat |-> FALSE, bulk |-> 0, cx |-> EmptyContext]

\* A prelude is the beginning of a module, up to a section boundary, shared by many cases. The
\* state reached after it is computed once; such cases are compared by outcome only.
RECURSIVE Through(_, _)
Through(s, len) == IF s.st = "run" /\ ~(s.pos = len + 1 /\ Head(s.todo).k = "sections")
                   THEN Through(Step(s), len) ELSE s
PreludeState == [i \in 1..Len(Preludes) |->
                   Through(StartState(-i, <<"module">>, Len(Preludes[i].b), 0), Len(Preludes[i].b))]

CaseStart(i) ==
  LET c == Cases[i]
  IN IF c.pre = 0
     THEN Settle(StartState(i, c.k, Len(c.b), IF c.nt = 1 THEN 0 ELSE 1))
     ELSE [PreludeState[c.pre] EXCEPT !.cid = i, !.wins = << [lim |-> Len(c.b), need |-> Len(c.b)] >>]

Init == \E i \in 1..Len(Cases) : m = CaseStart(i)

Decode == m.st = "run" /\ m' = Step(m)
Halted == m.st # "run" /\ UNCHANGED m
Next == Decode \/ Halted

Spec == Init /\ [][Next]_m /\ WF_m(Next)

-----------------------------------------------------------------------------
(* What a diagnostic, in lower case, says about a fault: its kind, and the   *)
(* offending byte in hexadecimal or decimal.                                 *)
Says(text, words) ==
  \E i \in 0..(Len(text) - Len(words)) : SubSeq(text, i + 1, i + Len(words)) = words
Digit(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Hex(b) == <<48, 120, Digit(b \div 16), Digit(b % 16)>>
ShortHex(b) == <<48, 120, Digit(b % 16)>>
Decimal(b) == IF b < 10 THEN <<Digit(b)>>
              ELSE IF b < 100 THEN <<Digit(b \div 10), Digit(b % 10)>>
              ELSE <<Digit(b \div 100), Digit((b \div 10) % 10), Digit(b % 10)>>
IsWord(c) == c \in 48..57 \/ c \in 97..122
SaysWord(text, words) ==       \* not as a part of a longer word or number
  \E i \in 0..(Len(text) - Len(words)) :
     /\ SubSeq(text, i + 1, i + Len(words)) = words
     /\ i = 0 \/ ~IsWord(text[i])
     /\ i + Len(words) = Len(text) \/ ~IsWord(text[i + Len(words) + 1])
SaysByte(text, b) == SaysWord(text, Hex(b)) \/ SaysWord(text, Decimal(b)) \/ (b < 16 /\ SaysWord(text, ShortHex(b)))

EndOfFile == <<101, 110, 100, 32, 111, 102>>                             \* end of
SignedWord == <<115, 105, 103, 110, 101, 100>>                           \* signed
UnsignedWord == <<117, 110>> \o SignedWord                               \* unsigned
UtfWord == <<117, 116, 102>>                                             \* utf
OpcodeWord == <<111, 112, 99, 111, 100, 101>>                            \* opcode
MagicWord == <<109, 97, 103, 105, 99>>                                   \* magic
VersionWord == <<118, 101, 114, 115, 105, 111, 110>>                     \* version
SectionWord == <<115, 101, 99, 116, 105, 111, 110>>                      \* section
SizeWord == <<115, 105, 122, 101>>                                       \* size

Explains(text, e) ==
  CASE e[1] = 1  -> Says(text, EndOfFile)
    [] e[1] = 2  -> SaysByte(text, e[2]) /\ ~Says(text, SectionWord)
    [] e[1] = 3  -> SaysWord(text, SignedWord)
    [] e[1] = 4  -> SaysWord(text, UnsignedWord)
    [] e[1] = 5  -> Says(text, UtfWord)
    [] e[1] = 6  -> Says(text, OpcodeWord)
    [] e[1] = 7  -> Says(text, MagicWord)
    [] e[1] = 8  -> Says(text, VersionWord)
    [] e[1] \in {9, 10} -> Says(text, SectionWord) /\ SaysByte(text, e[2])
    [] OTHER     -> Says(text, SizeWord)

(* What an input may need is in proportion to it: in kilobytes, one for each byte, 64 bytes for each *)
(* element of a run, and a constant.                                                                 *)
InProportion(s, c) == s.fat \/ c.a <= 32768 + Len(In(s)) + s.bulk

(* The record of case c is a behaviour of the specification. *)
Agrees(s) ==
  LET c == Case(s)
  IN /\ ~CheckSpace \/ InProportion(s, c)
     /\ IF s.st = "err"
        THEN /\ c.r = "err"
             /\ ~CheckKinds \/ s.err = UNSPEC \/ c.e = s.err
             /\ ~CheckTexts \/ s.err = UNSPEC \/ Explains(c.m, s.err)
        ELSE /\ c.r = "ok"
             /\ s.match
             /\ s.tok = 0 \/ s.tok = Len(c.t) + 1
             /\ c.used = s.pos - 1
             /\ c.v = -1 \/ (c.v = 1) = s.cx.valid
             /\ c.v = 1 => c.x = s.cx.iext \o s.cx.eext

\* Known finding: runs are expanded in memory, so that exhaustion of memory or time is possible.
Exhausted(s) == s.fat /\ Case(s).r \in {"crash", "hang"}

Conform == m.st = "run" \/ Agrees(m) \/ Exhausted(m)

\* The opposite, for records that were falsified on purpose: none of them is a behaviour.
Differ == m.st = "run" \/ ~Agrees(m)

\* What is shown of a run that does not conform.
Shown == [cid |-> m.cid, st |-> m.st, pos |-> m.pos, mode |-> m.mode, err |-> m.err, match |-> m.match, tok |-> m.tok, valid |-> m.cx.valid]

-----------------------------------------------------------------------------
(* Properties of the machine itself. *)
InBounds == /\ m.pos >= 1 /\ m.pos <= Len(In(m)) + 1
            /\ m.st = "run" => m.pos <= Lim(m) + 1
WindowsNested == \A i \in 2..Len(m.wins) : m.wins[i].lim <= m.wins[i - 1].lim
StacksOk == m.mode = "func" /\ m.v.ok =>
              \A i \in 1..Len(m.v.ctrls) :
                 /\ m.v.ctrls[i].h <= Len(m.v.opds)
                 /\ i > 1 => m.v.ctrls[i - 1].h <= m.v.ctrls[i].h
Halts == <>(m.st # "run")
\* nothing is read twice, sections only move on, and what was found wrong stays wrong
Forward == [][/\ m'.cid = m.cid /\ m'.pos >= m.pos /\ m'.last >= m.last
              /\ ~m.cx.valid => ~m'.cx.valid
              /\ ~m.match => ~m'.match]_m
Final == [][m.st = "run"]_m
Accepts == m.st = "ok" => m.pos = m.wins[1].lim + 1 \/ Case(m).k \notin {<<"module">>, <<"built">>}
=============================================================================
