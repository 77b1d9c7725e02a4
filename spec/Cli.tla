--------------------------------- MODULE Cli ---------------------------------
(* The command line tool: it reads its arguments one by one, then opens, reads, *)
(* decodes and validates the file, prints the module if asked to, and exits.   *)
(*                                                                             *)
(* An argument is "short", "long" (the print options), "empty" or "file".      *)
(* A file is "absent", "unreadable", "malformed", "invalid" or "valid".        *)
(* A tool state is [left, print, file, at, said, printed, status]: arguments   *)
(* to come, options found, the next stage, the stage a diagnostic named (""    *)
(* if none), whether the module was printed, and the exit status (-1 before).  *)
EXTENDS Sequences, Integers

Stages == <<"arguments", "open", "read", "parse", "validate", "print">>

Started(args) ==
  [left |-> args, print |-> FALSE, file |-> FALSE, at |-> 1, said |-> "", printed |-> FALSE, status |-> -1]

Fail(t) == [t EXCEPT !.said = Stages[t.at], !.status = 1]
Pass(t) == [t EXCEPT !.at = @ + 1]

TakeArg(t) ==
  LET a == Head(t.left)
      u == [t EXCEPT !.left = Tail(@)]
  IN IF a \in {"short", "long"} THEN [u EXCEPT !.print = TRUE]
     ELSE [u EXCEPT !.file = (a = "file")]

ToolStep(t, class) ==
  CASE t.left # <<>> -> TakeArg(t)
    [] t.at = 1 -> IF t.file THEN Pass(t) ELSE Fail(t)
    [] t.at = 2 -> IF class = "absent" THEN Fail(t) ELSE Pass(t)
    [] t.at = 3 -> IF class = "unreadable" THEN Fail(t) ELSE Pass(t)
    [] t.at = 4 -> IF class = "malformed" THEN Fail(t) ELSE Pass(t)
    [] t.at = 5 -> IF class = "invalid" THEN Fail(t) ELSE Pass(t)
    [] OTHER    -> [t EXCEPT !.printed = t.print, !.status = 0]

Running(t) == t.status = -1
=============================================================================
