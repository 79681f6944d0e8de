--------------------------------- MODULE MCZones --------------------------------
EXTENDS Zones, TLC, Json, IOUtils
CONSTANTS L
VARIABLE v
Init == v \in UNION {[1..n -> BOOLEAN] : n \in 1..L}
Next == UNCHANGED v
Spec == Init /\ [][Next]_v
Covers(rs, i) == Cardinality({k \in 1..Len(rs) : rs[k][1] <= i /\ i <= rs[k][2]})
\* every point lies in exactly one zone, of its own kind; neighbouring zones alternate
Partition == \A i \in 1..Len(v) : Covers(Runs(v, TRUE), i) + Covers(Runs(v, FALSE), i) = 1 /\ (v[i] <=> Covers(Runs(v, TRUE), i) = 1)
BordersAreCrossings == \A k \in 1..Len(Borders(v)) : LET p == Borders(v)[k]
   IN /\ ~v[p[1] + 1] /\ (p[1] > 0 => v[p[1]])
      /\ (v[p[2] + 1] \/ p[2] = Len(v) - 1)
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq({[kinds |-> w] : w \in UNION {[1..n -> {"V", "I"}] : n \in 2..L} \cup UNION {[1..n -> {"V", "R", "F", "N", "B"}] : n \in 2..4}}))
=================================================================================
