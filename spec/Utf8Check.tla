----------------------------- MODULE Utf8Check ------------------------------
(* The automaton accepts exactly the encodings of the Unicode scalar values: *)
(* it accepts every encoding (one character at a time), the encodings are    *)
(* pairwise different, and it accepts no more strings of one character than  *)
(* there are scalar values.                                                  *)
EXTENDS Utf8, FiniteSets, TLC, IOUtils

Deep == IOEnv.UTF8_DEEP = "1"

VARIABLE c

Encode(x) ==
  CASE x < 128   -> <<x>>
    [] x < 2048  -> <<192 + x \div 64, 128 + (x % 64)>>
    [] x < 65536 -> <<224 + x \div 4096, 128 + ((x \div 64) % 64), 128 + (x % 64)>>
    [] OTHER     -> <<240 + x \div 262144, 128 + ((x \div 4096) % 64), 128 + ((x \div 64) % 64), 128 + (x % 64)>>

Decode(s) ==
  CASE Len(s) = 1 -> s[1]
    [] Len(s) = 2 -> (s[1] - 192) * 64 + s[2] - 128
    [] Len(s) = 3 -> (s[1] - 224) * 4096 + (s[2] - 128) * 64 + s[3] - 128
    [] OTHER      -> (s[1] - 240) * 262144 + (s[2] - 128) * 4096 + (s[3] - 128) * 64 + s[4] - 128

Scalar(x) == x \in 0..55295 \/ x \in 57344..1114111
Sampled(x) == Deep \/ x < 2304 \/ x % 64 \in {0, 63} \/ x \div 4096 \in {13, 16}

\* rows of 4096 code points
Init == c \in 0..271
Next == UNCHANGED c

Row == {x \in (4096 * c)..(4096 * c + 4095) : Sampled(x)}
Accepted == \A x \in Row : Scalar(x) = (URun(0, Encode(x), 1, Len(Encode(x))) = 0)
OneCharacter == \A x \in Row : Scalar(x) =>
                  \A k \in 1..(Len(Encode(x)) - 1) : URun(0, Encode(x), 1, k) \notin {0, 9}
Injective == \A x \in Row : Decode(Encode(x)) = x

\* strings that lead from state q to the end of the character
RECURSIVE Ways(_, _)
Ways(q, n) == IF n = 0 THEN IF q = 0 THEN 1 ELSE 0
              ELSE LET T == {UStep(q, b) : b \in 0..255} \ {9}
                       count(t) == Cardinality({b \in 0..255 : UStep(q, b) = t})
                       RECURSIVE Add(_)
                       Add(S) == IF S = {} THEN 0
                                 ELSE LET t == CHOOSE t \in S : TRUE
                                      IN (IF t = 0 /\ n > 1 THEN 0 ELSE count(t) * Ways(t, n - 1)) + Add(S \ {t})
                   IN Add(T)
Count == c = 0 => Ways(0, 1) + Ways(0, 2) + Ways(0, 3) + Ways(0, 4) = 1112064 /\ Ways(0, 5) = 0
=============================================================================
