--------------------------------- MODULE MCModeData -------------------------------
EXTENDS ModeData, TLC, Json, IOUtils, SequencesExt, Randomization
CONSTANTS Cuts, Many
(* Profiles of one mesh are cut again and again, all of them or not.               *)
VARIABLES obj, n
vars == <<obj, n>>
Sl == [lo : {0, 1, 2, -1, -2, None}, hi : {-1, -2, None, 3}, step : {1, 2}]
Start == [k \in {"a", "b", "c"} |-> CASE k = "a" -> <<1, 2, 3, 4, 5>> [] k = "b" -> <<11, 12, 13, 14, 15>> [] k = "c" -> <<21, 22, 23, 24, 25>>]
Init == obj = Start /\ n = 0
Next == n < Cuts /\ n' = n + 1 /\ \E c \in Sl : obj' = CutAll(obj, {"a", "b"}, c)
Spec == Init /\ [][Next]_vars
\* profiles cut together stay aligned; others stay whole
Aligned == Len(obj["a"]) = Len(obj["b"]) /\ \A i \in DOMAIN obj["a"] : obj["b"][i] = obj["a"][i] + 10
Whole == obj["c"] = Start["c"]
\* order is kept, nothing is made up
Ordered == \A i, j \in DOMAIN obj["a"] : i < j => obj["a"][i] < obj["a"][j]
\* centre and surface can be cut in either order
Ctr == [lo |-> 1, hi |-> None, step |-> 1]
Srf == [lo |-> None, hi |-> -1, step |-> 1]
Both == [lo |-> 1, hi |-> -1, step |-> 1]
Commute == Len(obj["a"]) >= 1 => Taken(Taken(obj["a"], Ctr), Srf) = Taken(obj["a"], Both) /\ Taken(Taken(obj["a"], Srf), Ctr) = Taken(obj["a"], Both)
ASSUME Joined(<<1, 2>>, <<3, 4>>, <<2>>) = <<<<2, 6>>, <<4, 8>>>> /\ Joined(<<1, 2>>, <<3, 4>>, <<2, 5>>) = <<<<2, 6>>, <<10, 20>>>>
Names == {"structure_coefficient_cuts", "polytropic_cuts", "mesa_gyre_cuts", "pre_profile_load_cuts", "profile_load_cuts_analytic"}
ASSUME \A g \in Names : Known(g, TRUE) \/ Known(g, FALSE)
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq(RandomSubset(Many,
   [name : Names \cup {"no_such_cuts", "own"}, poly : BOOLEAN, upper : BOOLEAN, cut : Sl \cup {Ctr, Srf, Both}, again : {Ctr, Srf, Both}, n : 1..6, form : {"array", "void", "parts", "voidparts"}, each : BOOLEAN,
    unit : {"CYC_PER_DAY", "HZ", "UHZ", "RAD_PER_SEC", "NONE", "ACOUSTIC_DELTA", "", "PER_DAY"}, bytes : BOOLEAN, seed : 1..30])))
===================================================================================
