-------------------------------- MODULE MCReports --------------------------------
EXTENDS Reports, Json, IOUtils, SequencesExt
Sw == {"T", "F", "none", "absent"}
Leaf(k, x) == IF x = "absent" THEN <<>> ELSE IF x = "none" THEN <<[k |-> k, t |-> "table", v |-> "", b |-> FALSE, c |-> <<>>]>>
              ELSE <<[k |-> k, t |-> "leaf", v |-> x, b |-> x = "T", c |-> <<>>]>>
Table(k, c) == <<[k |-> k, t |-> "table", v |-> "", b |-> TRUE, c |-> c]>>
Doc(a, b, s, u) == Table("analysis", Leaf("numbers_categories", a) \o Leaf("q_Q1_condition", b) \o Leaf("isolated_mode_properties", IF a = "T" THEN "F" ELSE "T"))
                   \o Table("plotting", Table("plot", Leaf("show", s)) \o Table("load", Leaf("use_custom_name", u)))
Ins == {[kind |-> q, argc |-> n, cands |-> <<"w", "r">>, fs |-> f, based |-> d, doc |-> Doc(a, b, s, u)] :
          q \in {"plot", "analyse"}, n \in {1, 3, 4}, f \in SUBSET {"w", "r"}, d \in BOOLEAN, a \in Sw, b \in Sw, s \in Sw, u \in Sw}
Init == rin \in Ins /\ pc = "asked" /\ told = {}
Names == {a[2] : a \in Analyses}
Next == Construct \/ Plot \/ Show \/ Finished \/ (\E a \in Names : Tell(a)) \/ \E w \in {"RuntimeError", "FileNotFoundError", "ExceptionGroup"} : Stop(w)
Spec == Init /\ [][Next]_rep /\ WF_rep(Next)
StoppedMeansNothing == pc = "stopped" => told = {}
OnlyAsked == told \subseteq Asked(rin) /\ (told # {} => rin.kind = "analyse")
ShownOnlyOnRequest == pc = "shown" => ShowIt(rin)
AllTold == pc = "done" /\ rin.kind = "analyse" => told = Asked(rin)
AlwaysEnds == <>(pc \in {"done", "stopped"})
OneSource == \A a, b \in SaveArgs \cup PlotArgs \cup LoadArgs : (a[1] = b[1] \/ a[2] = b[2]) => a = b
Flags == [1..5 -> {"T", "F"}]
ASSUME OneSource
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq({[kind |-> q, argc |-> n, w |-> w, r |-> r, based |-> b, flags |-> x, show |-> s] :
          q \in {"plot", "analyse"}, n \in {1, 3, 4, 5}, w \in BOOLEAN, r \in BOOLEAN, b \in BOOLEAN, x \in Flags, s \in Sw}))
=================================================================================
