------------------------------ MODULE MCNormaliser ------------------------------
EXTENDS Normaliser, TLC, Json, IOUtils, SequencesExt, Randomization
CONSTANTS Looks, Many
VARIABLES e, st, iter, max
Energies == {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<3, 2>>}
Scripts == UNION {[1..n -> Energies] : n \in 1..Looks}
Init == /\ e \in {<<s, t>> : s \in Scripts, t \in {u \in Scripts : Len(u) <= 2}}
        /\ iter \in BOOLEAN /\ max \in 0..3 /\ st = Start(e)
Next == Going(st, iter, max) /\ st' = Round(e, st) /\ UNCHANGED <<e, iter, max>>
Spec == Init /\ [][Next]_<<e, st, iter, max>> /\ WF_<<e, st, iter, max>>(Next)
\* a mode on target is left alone
Settled == [][\A i \in DOMAIN e : ~st.off[i] => st'.fac[i] = st.fac[i] /\ ~st'.off[i]]_st
Bounded == st.it <= max /\ (~iter => st.it = 0)
\* every factor is the product of those the energies called for
RECURSIVE Product(_, _)
Product(s, k) == IF k = 0 THEN RInt(1) ELSE RMul(Product(s, k - 1), Factor(Seen(s, k)))
Accounted == \A i \in DOMAIN e : st.fac[i] = Product(e[i], st.cur[i] - 1)
\* off exactly when the last energy seen is not the target
Honest == \A i \in DOMAIN e : st.off[i] <=> ~OnTarget(Seen(e[i], st.cur[i]))
Ends == <>[](~Going(st, iter, max))
Closed == ~Going(st, iter, max) => st = Final(e, iter, max)
\* truthful energies: after one factor the mode is on target, whatever it showed
ASSUME \A v \in Energies : R(v[1] * Factor(v)[1], v[2] * Factor(v)[2]) = RInt(1)
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq(RandomSubset(Many, [e : [1..3 -> UNION {[1..n -> Energies] : n \in 1..3}], iter : BOOLEAN, max : 0..3, kind : {"lee2012", "schenk2002", "LEE2012"}, py : BOOLEAN])))
=================================================================================
