------------------------------ MODULE MCTriadGrid -------------------------------
EXTENDS TriadGrid, TLC, Json, IOUtils
CONSTANTS Lo, Hi, PLo, PHi
VARIABLE count
Ranges(a, b) == {r \in (a..b) \X (a..b) : r[1] <= r[2]}
Inputs == {<<a, b, c>> : a \in Ranges(PLo, PHi), b \in Ranges(Lo, Hi), c \in Ranges(Lo, Hi) \union {<<>>}}
Init == /\ \E i \in Inputs : p = i[1] /\ d1 = i[2] /\ d2 = i[3]
        /\ cur = p[1] /\ seen = {} /\ phase = "run" /\ count = 0
Next == \/ \E n1 \in Rng(p), x, y \in Rng(d1) \union Rng(d2) : Triad(n1, x, y) /\ count' = count + 1
        \/ Finished /\ UNCHANGED count
Spec == Init /\ [][Next]_<<gvars, count>>
CountOk == phase = "done" => count = NTriads
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq({[p |-> i[1], d1 |-> i[2], d2 |-> i[3]] : i \in Inputs}))
=================================================================================
