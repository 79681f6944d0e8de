--------------------------------- MODULE MCRunner -------------------------------
EXTENDS Runner, Json, IOUtils, SequencesExt
Sw == {"T", "F", "none", "absent"}
Leaf(k, x) == IF x = "absent" THEN <<>> ELSE IF x = "none" THEN <<[k |-> k, t |-> "table", v |-> "", b |-> FALSE, c |-> <<>>]>>
              ELSE <<[k |-> k, t |-> "leaf", v |-> x, b |-> x = "T", c |-> <<>>]>>
Doc(g, p, y) == <<[k |-> "computation", t |-> "table", v |-> "", b |-> TRUE, c |-> Leaf("compute_grid_models", g) \o Leaf("compute_coefficient_profile", p)],
                  [k |-> "coupling_coefficient", t |-> "table", v |-> "", b |-> TRUE, c |-> Leaf("compute_for_polytrope", y)]>>
Ins == {[argc |-> n, switch |-> k, cands |-> <<"w", "r">>, fs |-> f, based |-> b, doc |-> Doc(g, p, y), save |-> "s"] :
          n \in {1, 3, 4, 6}, k \in {0, 1, 4}, f \in SUBSET {"w", "r"}, b \in BOOLEAN, g \in Sw, p \in Sw, y \in {"T", "F"}}
Init == rin \in Ins /\ pc = "asked" /\ started = <<>> /\ saved = 0
Next == \/ \E k \in {"grid", "profile"} : Construct(k)
        \/ Solve \/ Prepare \/ Save \/ Finished
        \/ \E w \in {"RuntimeError", "FileNotFoundError", "ExceptionGroup"} : Stop(w)
Spec == Init /\ [][Next]_run /\ WF_run(Next)
AtMostOneSolver == Len(started) <= 1
StoppedMeansNothingStarted == pc = "stopped" => started = <<>> /\ saved = 0
OnlyGridIsSaved == saved > 0 => started = <<"grid">>
ContradictionNeverRuns == WantsGrid(rin) /\ WantsProfile(rin) => started = <<>>
NothingChosenNeverRuns == ~WantsGrid(rin) /\ ~WantsProfile(rin) => started = <<>>
AlwaysEnds == <>(pc \in {"done", "stopped"})
\* every constructor argument has exactly one source
OneSource == \A a, b \in Sources(rin) : a[1] = b[1] => a = b
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq({[argc |-> n, switch |-> k, w |-> w, r |-> r, based |-> b, grid |-> g, profile |-> p, poly |-> y] :
          n \in {1, 3, 4, 6, 7}, k \in {0, 1, 4}, w \in BOOLEAN, r \in BOOLEAN, b \in BOOLEAN, g \in Sw, p \in Sw, y \in {"T", "F"}}))
=================================================================================
