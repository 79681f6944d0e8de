------------------------------ MODULE MCDimensions ------------------------------
EXTENDS Dimensions, TLC, Json, IOUtils, SequencesExt, Randomization
CONSTANTS Many
\* a quantity of known dimensions in a star, first in one system of units, then in the other
VARIABLES k, star, si, at, val, ten
Init == /\ k \in DOMAIN Mech /\ star \in {<<m, r>> : m \in {1, 2, 3}, r \in {1, 2}} /\ si \in BOOLEAN /\ at = 1 /\ val = RInt(1) /\ ten = 0
\* squared factor, and the power of ten it changes by with the units of the star and of G
Next == /\ at < 3 /\ at' = at + 1 /\ UNCHANGED <<k, star, si>>
        /\ val' = IF at = 2 THEN RMul(val, Factor2(Mech[k], RInt(star[1]), RInt(star[2]))) ELSE val
        /\ ten' = IF at = 2 /\ si THEN ten + TwoM(Mech[k]) * ExpSI(Base.M_star) + TwoR(Mech[k]) * ExpSI(Base.R_star) + TwoG(Mech[k]) * ExpSI(<<-1, 3, -2>>) ELSE ten
Spec == Init /\ [][Next]_<<k, star, si, at, val, ten>> /\ WF_<<k, star, si, at, val, ten>>(Next)
\* converting the star and then giving dimensions is giving dimensions and converting the result
Commutes == at = 3 => /\ ten = IF si THEN 2 * ExpSI(Mech[k]) ELSE 0
                      /\ val = RMul(Pw(RInt(star[1]), TwoM(Mech[k])), Pw(RInt(star[2]), TwoR(Mech[k])))
\* dimensions of G M^a R^b are those asked for
Sound == TwoM(Mech[k]) - TwoG(Mech[k]) = 2 * Mech[k][1] /\ TwoR(Mech[k]) + 3 * TwoG(Mech[k]) = 2 * Mech[k][2] /\ -2 * TwoG(Mech[k]) = 2 * Mech[k][3]
Ends == <>(at = 3)
ASSUME \A q \in DOMAIN Local : q \in Complex /\ q \notin DOMAIN Mech
ASSUME \A q \in DOMAIN Mech : q \notin DOMAIN Base
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq(RandomSubset(Many, [M : {2, 3, 5}, R : {2, 3, 7}, L : {3, 5, 11}, n : 1..4, si : {"CGS", "SI", "si", "cgs"}, kind : {"gyre", "poly"}, modes : 1..3])))
=================================================================================
