----------------------------------- MODULE Zones --------------------------------
(* Splitting a stellar mesh into zones in which the traditional approximation    *)
(* holds and zones in which it does not.                                         *)
(* Mesh points carry the buoyancy frequency (a negative number stands for a      *)
(* negative squared frequency: convection), all frequencies in one unit.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Max2(a, b) == IF a > b THEN a ELSE b
Mag(a) == IF a < 0 THEN -a ELSE a
RotOk(k, rot) == k > 0 /\ k > 20 * rot               \* 0.1 N > 2 Omega
FreqOk(k, oms) == k > 0 /\ \A i \in 1..Len(oms) : k > 10 * Mag(oms[i])
Valid(bv, rot, oms) == [i \in 1..Len(bv) |-> RotOk(bv[i], rot) /\ FreqOk(bv[i], oms)]
SlowManifold(oms, gam) == \A i \in 1..Len(oms) : Mag(oms[i]) > 10 * Mag(gam[i])
\* maximal runs of value b, as pairs <<first, last>> (1-based), in increasing order
RunsOf(v, b) == {p \in (1..Len(v)) \X (1..Len(v)) :
                   /\ p[1] <= p[2] /\ \A i \in p[1]..p[2] : v[i] = b
                   /\ (p[1] = 1 \/ v[p[1] - 1] # b) /\ (p[2] = Len(v) \/ v[p[2] + 1] # b)}
Runs(v, b) == SetToSortSeq(RunsOf(v, b), LAMBDA x, y : x[1] < y[1])
\* zones as the real code numbers them: zero-based, <<first, last>>
ZeroBased(rs) == [i \in 1..Len(rs) |-> <<rs[i][1] - 1, rs[i][2] - 1>>]
\* borders of an invalid zone: its first point and the point at which validity returns (or the last mesh point)
Borders(v) == LET rs == Runs(v, FALSE)
              IN [i \in 1..Len(rs) |-> <<rs[i][1] - 1, IF rs[i][2] = Len(v) THEN Len(v) - 1 ELSE rs[i][2]>>]
\* the run is stopped instead when the modes are not slow or the two conditions hold only at different points
Undecidable(bv, rot, oms) == /\ \A i \in 1..Len(bv) : ~Valid(bv, rot, oms)[i]
                             /\ \E i \in 1..Len(bv) : RotOk(bv[i], rot)
                             /\ \E i \in 1..Len(bv) : FreqOk(bv[i], oms)
Stopped(bv, rot, oms, gam) == ~SlowManifold(oms, gam) \/ Undecidable(bv, rot, oms)
=================================================================================
