------------------------------- MODULE Opcodes -------------------------------
(* The instruction set of WebAssembly 1.0: which opcodes exist, what          *)
(* immediates follow them, and the operand types of those without control     *)
(* effect. Opcodes and value types are the bytes of the binary format.        *)
EXTENDS Num

I32 == 127
I64 == 126
F32 == 125
F64 == 124
ValTypes == {I32, I64, F32, F64}
Void == 64                                   \* the empty block type

\* immediates of an opcode
ImmTable ==
  [op \in 0..255 |->
     CASE op \in {0, 1, 15, 26, 27}   -> "none"      \* unreachable nop return drop select
       [] op \in {2, 3, 4}            -> "block"     \* block loop if
       [] op = 5                      -> "else"
       [] op = 11                     -> "end"
       [] op \in {12, 13}             -> "idx"       \* br br_if
       [] op = 14                     -> "brtable"
       [] op = 16                     -> "idx"       \* call
       [] op = 17                     -> "idx2"      \* call_indirect
       [] op \in 32..36               -> "idx"       \* locals and globals
       [] op \in 40..62               -> "memarg"    \* loads and stores
       [] op \in {63, 64}             -> "idx"       \* memory.size memory.grow
       [] op = 65                     -> "i32"
       [] op = 66                     -> "i64"
       [] op = 67                     -> "f32"
       [] op = 68                     -> "f64"
       [] op \in 69..191              -> "none"      \* numeric
       [] OTHER                       -> "bad"]
Imm(op) == ImmTable[op]
Opcodes == {op \in 0..255 : Imm(op) # "bad"}

\* loads and stores: value type and greatest alignment exponent
MemTable ==
  [op \in 40..62 |->
     CASE op = 40 -> <<I32, 2>> [] op = 41 -> <<I64, 3>>
       [] op = 42 -> <<F32, 2>> [] op = 43 -> <<F64, 3>>
       [] op = 44 -> <<I32, 0>> [] op = 45 -> <<I32, 0>>     \* 8 bit
       [] op = 46 -> <<I32, 1>> [] op = 47 -> <<I32, 1>>     \* 16 bit
       [] op = 48 -> <<I64, 0>> [] op = 49 -> <<I64, 0>>
       [] op = 50 -> <<I64, 1>> [] op = 51 -> <<I64, 1>>
       [] op = 52 -> <<I64, 2>> [] op = 53 -> <<I64, 2>>     \* 32 bit
       [] op = 54 -> <<I32, 2>> [] op = 55 -> <<I64, 3>>
       [] op = 56 -> <<F32, 2>> [] op = 57 -> <<F64, 3>>
       [] op = 58 -> <<I32, 0>> [] op = 59 -> <<I32, 1>>
       [] op = 60 -> <<I64, 0>> [] op = 61 -> <<I64, 1>>
       [] OTHER   -> <<I64, 2>>]
IsLoad(op)  == op \in 40..53
IsStore(op) == op \in 54..62

Un(t)     == <<<<t>>, <<t>>>>
Bin(t)    == <<<<t, t>>, <<t>>>>
Rel(t)    == <<<<t, t>>, <<I32>>>>
Cvt(s, t) == <<<<s>>, <<t>>>>

\* operand and result types of the numeric instructions
SigTable ==
  [op \in 69..191 |->
     CASE op = 69             -> Cvt(I32, I32)       \* eqz
       [] op \in 70..79       -> Rel(I32)
       [] op = 80             -> Cvt(I64, I32)       \* eqz
       [] op \in 81..90       -> Rel(I64)
       [] op \in 91..96       -> Rel(F32)
       [] op \in 97..102      -> Rel(F64)
       [] op \in 103..105     -> Un(I32)             \* clz ctz popcnt
       [] op \in 106..120     -> Bin(I32)
       [] op \in 121..123     -> Un(I64)
       [] op \in 124..138     -> Bin(I64)
       [] op \in 139..145     -> Un(F32)             \* abs .. sqrt
       [] op \in 146..152     -> Bin(F32)            \* add .. copysign
       [] op \in 153..159     -> Un(F64)
       [] op \in 160..166     -> Bin(F64)
       [] op = 167            -> Cvt(I64, I32)       \* wrap
       [] op \in {168, 169}   -> Cvt(F32, I32)       \* trunc
       [] op \in {170, 171}   -> Cvt(F64, I32)
       [] op \in {172, 173}   -> Cvt(I32, I64)       \* extend
       [] op \in {174, 175}   -> Cvt(F32, I64)
       [] op \in {176, 177}   -> Cvt(F64, I64)
       [] op \in {178, 179}   -> Cvt(I32, F32)       \* convert
       [] op \in {180, 181}   -> Cvt(I64, F32)
       [] op = 182            -> Cvt(F64, F32)       \* demote
       [] op \in {183, 184}   -> Cvt(I32, F64)
       [] op \in {185, 186}   -> Cvt(I64, F64)
       [] op = 187            -> Cvt(F32, F64)       \* promote
       [] op = 188            -> Cvt(F32, I32)       \* reinterpret
       [] op = 189            -> Cvt(F64, I64)
       [] op = 190            -> Cvt(I32, F32)
       [] OTHER               -> Cvt(I64, F64)]
ConstType(op) == CASE op = 65 -> I32 [] op = 66 -> I64 [] op = 67 -> F32 [] OTHER -> F64
=============================================================================
