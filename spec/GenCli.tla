------------------------------- MODULE GenCli -------------------------------
(* Every argument list up to a length with every kind of file: what the tool  *)
(* does, and the properties its behaviours have.                             *)
EXTENDS Cli, TLC, Json, IOUtils, CSV

Args == {"short", "long", "empty", "file"}
Classes == {"absent", "unreadable", "malformed", "invalid", "valid"}
MaxArgs == 4
Files(a) == Len(SelectSeq(a, LAMBDA x : x \in {"file", "empty"}))

VARIABLES args, class, t

Init ==
  /\ class \in Classes
  /\ \E n \in 0..MaxArgs : args \in [1..n -> Args]
  /\ Files(args) <= 1
  /\ t = Started(args)

Next == Running(t) /\ t' = ToolStep(t, class) /\ UNCHANGED <<args, class>>
Spec == Init /\ [][Next]_<<args, class, t>> /\ WF_<<args, class, t>>(Next)

Emit == ~Running(t') => CSVWrite("%1$s", <<ToJson([args |-> args, class |-> class])>>, IOEnv.GEN_OUT)

HasFile == \E i \in 1..Len(args) : args[i] = "file"
Asked   == \E i \in 1..Len(args) : args[i] \in {"short", "long"}

\* the property, stated on the outcome
Succeeds == ~Running(t) => (t.status = 0 <=> (HasFile /\ class = "valid"))
Prints   == ~Running(t) => (t.printed <=> (t.status = 0 /\ Asked))
Explains == ~Running(t) => (t.status = 1 <=> t.said # "") /\ t.status \in {0, 1}
Names    == (~Running(t) /\ t.status = 1) =>
              t.said = IF ~HasFile THEN "arguments"
                       ELSE CASE class = "absent" -> "open" [] class = "unreadable" -> "read"
                              [] class = "malformed" -> "parse" [] OTHER -> "validate"
Ends     == <>(~Running(t))
=============================================================================
