------------------------------ MODULE MCPathResolve -----------------------------
EXTENDS PathResolve, TLC, Json, IOUtils, SequencesExt
P == {"w", "r", "x"}
VARIABLES cands, fs, tried, found
Init == cands \in UNION {[1..n -> P] : n \in 1..3} /\ fs \in SUBSET P /\ tried = 0 /\ found = "none"
\* the search itself, one candidate at a time
Next == /\ found = "none" /\ tried < Len(cands) /\ tried' = tried + 1
        /\ found' = (IF cands[tried + 1] \in fs THEN cands[tried + 1] ELSE "none") /\ UNCHANGED <<cands, fs>>
Spec == Init /\ [][Next]_<<cands, fs, tried, found>>
Over == found # "none" \/ tried = Len(cands)
SearchIsFirstExisting == Over => found = FirstExisting(cands, fs)
NeverMissing == found # "none" => found \in fs
ErrorOnlyIfNone == FirstExisting(cands, fs) = "none" <=> \A i \in DOMAIN cands : cands[i] \notin fs
Scripts == {"plot", "analyze", "direct"}
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq({[script |-> s, argc |-> n, switch |-> k, w |-> w, r |-> r, abs |-> a, here |-> h] :
        s \in Scripts, n \in 1..6, k \in {0}, w \in BOOLEAN, r \in BOOLEAN, a \in BOOLEAN, h \in {"run", "sub", "same"}}))
=================================================================================
