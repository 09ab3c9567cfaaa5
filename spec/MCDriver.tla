------------------------------ MODULE MCDriver ------------------------------
(* all command lines over two files with all small contents; LIST: registered equations *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT LIST
VARIABLES cmd, stage, file, eq, dim, next, runs, created, failed
vars == <<cmd, stage, file, eq, dim, next, runs, created, failed>>
D == INSTANCE Driver WITH Registered <- LIST
A(s, k, v, ok) == [s |-> s, k |-> k, v |-> v, ok |-> ok]
Heads == {<<A("B - Equation", "dimension", d, d # "x"), A("B - Equation", "equation", e, TRUE)>> :
            d \in {"0", "1", "2", "3", "4", "-1", "x"}, e \in {"euler", "shallow water", "eule", "euler aeos", ""}}
         \cup {<<>>, <<A("B - Equation", "dimension", "2", TRUE)>>, <<A("B - Equation", "equation", "euler", TRUE)>>}
Tails == {<<>>, <<A("A - TimeLoop", "basename", "b", TRUE)>>, <<A("A - TimeLoop", "final time", "x", FALSE)>>, <<A("B - Equation", "gamma", "1.3", TRUE)>>,
          <<A("B - Equation", "gravity", "1", TRUE)>>, <<A("Z", "k", "1", TRUE)>>,
          <<A("A - TimeLoop", "basename", "b", TRUE), A("A - TimeLoop", "basename", "c", TRUE)>>}
Files == {h \o t : h \in Heads, t \in Tails}
Cmds == {[args |-> a, default |-> "d.prm", files |-> fs, template |-> FALSE] :
           a \in {<<>>, <<"d.prm">>, <<"f.prm">>, <<"g.prm">>, <<"f.prm", "d.prm">>, <<"f.prm", "-v", "x">>},
           fs \in {<<>>} \cup {("f.prm" :> f) : f \in Files} \cup {("d.prm" :> f) : f \in Files} \cup
                  {("f.prm" :> <<A("B - Equation", "dimension", "2", TRUE), A("B - Equation", "equation", "euler", TRUE)>>) @@ ("d.prm" :> f) : f \in Files}}
Init == \E c \in Cmds : D!DInit(c)
Next == D!DNext \/ (stage = "end" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(D!DNext)
AtMostOne == D!AtMostOne
Success == D!Success
Named == D!Named
Refusal == D!Refusal
OnlyTemplates == D!OnlyTemplates
Ends == <>(stage = "end")
=============================================================================
