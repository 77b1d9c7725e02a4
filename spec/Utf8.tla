-------------------------------- MODULE Utf8 --------------------------------
(* Well-formed UTF-8 (Unicode table 3-7) as an automaton over bytes.         *)
EXTENDS Num

\* states: 0 between characters; 1, 2, 3 that many plain continuation bytes missing;
\* 20 after E0, 21 after ED (two missing), 30 after F0, 31 after F4 (three missing); 9 malformed
UStates == {0, 1, 2, 3, 20, 21, 30, 31, 9}

UStep(q, b) ==
  CASE q = 0 -> (CASE b <= 127              -> 0
                   [] b >= 194 /\ b <= 223  -> 1
                   [] b = 224               -> 20
                   [] b = 237               -> 21
                   [] b >= 225 /\ b <= 239  -> 2
                   [] b = 240               -> 30
                   [] b >= 241 /\ b <= 243  -> 3
                   [] b = 244               -> 31
                   [] OTHER                 -> 9)
    [] q = 1  -> IF b >= 128 /\ b <= 191 THEN 0 ELSE 9
    [] q = 2  -> IF b >= 128 /\ b <= 191 THEN 1 ELSE 9
    [] q = 3  -> IF b >= 128 /\ b <= 191 THEN 2 ELSE 9
    [] q = 20 -> IF b >= 160 /\ b <= 191 THEN 1 ELSE 9
    [] q = 21 -> IF b >= 128 /\ b <= 159 THEN 1 ELSE 9
    [] q = 30 -> IF b >= 144 /\ b <= 191 THEN 2 ELSE 9
    [] q = 31 -> IF b >= 128 /\ b <= 143 THEN 2 ELSE 9
    [] OTHER  -> 9

\* the state after in[i..end]; long stretches are halved to keep the recursion shallow
RECURSIVE URun(_, _, _, _)
URun(q, in, i, end) ==
  IF i > end \/ q = 9 THEN q
  ELSE IF end - i < 32 THEN URun(UStep(q, in[i]), in, i + 1, end)
  ELSE LET mid == (i + end) \div 2
           r == URun(q, in, i, mid)
       IN URun(r, in, mid + 1, end)

\* in[i..end] is well-formed UTF-8
WellFormed(in, i, end) == URun(0, in, i, end) = 0
=============================================================================
