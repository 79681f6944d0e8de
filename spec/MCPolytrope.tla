------------------------------- MODULE MCPolytrope ------------------------------
EXTENDS Polytrope, TLC, Json, IOUtils, SequencesExt, Randomization
CONSTANTS Each, Many
Ss == {<<1, 1>>, <<1, 2>>, <<2, 1>>}
Ds == {<<-1, 1>>, <<-1, 2>>, <<-2, 1>>}
Layers == [z : {<<1, 1>>, <<1, 2>>, <<2, 1>>}, s : Ss, d : Ds]
Small(k, x) == (k > 3 => x.s # <<1, 2>>) /\ (k > 2 => x.z # <<1, 2>>)
VARIABLES c, st
\* adiabatic index of the polytrope itself
Own(k) == RDiv(Half(k.n2 + 2), Half(k.n2))
Init == /\ \E n2 \in {2, 3, 4, 6}, g \in {<<5, 3>>, <<4, 3>>}, M \in {1, 4}, al \in {<<1, 1>>, <<2, 1>>} :
             \E a \in {x \in RandomSubset(Each, Layers) : Small(n2, x)}, b \in {x \in Layers : x.z \in {<<2, 1>>} /\ Small(n2, x)} : c = [n2 |-> n2, gam |-> g, M |-> M, al |-> al, lay |-> <<a, b>>]
        /\ st = Star(c)
Next == UNCHANGED <<c, st>> /\ FALSE
Spec == Init /\ [][Next]_<<c, st>>
\* hydrostatic equilibrium, differentiated twice
Hydro == \A i \in 1..2 : \E s \in {st[i]} :
            /\ s.dp = RNeg(RMul(s.rho, s.dgravpot))
            /\ s.dp2 = RNeg(RAdd(RMul(s.drho, s.dgravpot), RMul(s.rho, s.dgravpot2)))
            /\ s.dp3 = RNeg(RAdd(RAdd(RMul(s.drho2, s.dgravpot), Times(2, RMul(s.drho, s.dgravpot2))), RMul(s.rho, s.dgravpot3)))
\* theta' is the slope of theta, theta'' obeys the Lane-Emden equation
LaneEmden == \A i \in 1..2 : \E m \in {Model(c)} : \E x \in {c.lay[i]} :
            /\ RMul(c.al, Slope(m, st[i].dgravpot)) = x.d
            /\ RMul(Sq(c.al), Slope(m, st[i].dgravpot2)) = RSub(RNeg(T(x.s, c.n2)), Times(2, RDiv(x.d, x.z)))
LnP(s) == RDiv(RMul(s.r, s.dp), s.p)
LnRho(s) == RDiv(RMul(s.r, s.drho), s.rho)
\* P ~ rho^(1 + 1/n)
Poly == \A i \in 1..2 : RMul(Half(c.n2), LnP(st[i])) = RMul(Half(c.n2 + 2), LnRho(st[i]))
\* V = -dlnP/dlnr; the whole mass inside the surface
Coefs == /\ \A i \in 1..2 : st[i].v = RNeg(LnP(st[i])) /\ RMul(st[i].u, st[i].mr) = RMul(st[i].rho, Pow(st[i].r, 3))
         /\ st[2].mr = RInt(c.M) /\ st[2].c1 = RInt(1) /\ st[2].v2 = st[2].v
\* neutrally stratified when the gas follows the polytrope; scaling: twice the mass, twice the radius
Homology == \E k \in {Star([c EXCEPT !.M = 2 * @])[1]} : \E w \in {Star([c EXCEPT !.al = RMul(@, RInt(2))])[1]} : \E o \in {st[1]} :
              /\ k.rho = Times(2, o.rho) /\ k.p = Times(4, o.p) /\ k.as = o.as /\ k.v = o.v /\ k.brunt_n2 = Times(2, o.brunt_n2) /\ k.drho3 = Times(2, o.drho3)
              /\ Times(8, w.rho) = o.rho /\ Times(16, w.p) = o.p /\ w.c1 = o.c1 /\ w.u = o.u /\ Times(8, w.brunt_n2) = o.brunt_n2 /\ Times(128, w.dp3) = o.dp3
Neutral == \A i \in 1..2 : Star([c EXCEPT !.gam = Own(c)])[i].brunt_n2 = RInt(0)
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq(RandomSubset(Many, [n2 : {2, 3, 4, 6}, gam : {<<5, 3>>, <<4, 3>>}, k : {1, 2}, al : {<<1, 1>>, <<2, 1>>}, si : BOOLEAN, arr : BOOLEAN,
                                          lay : [1..3 -> [s : Ss, d : Ds]]])))
=================================================================================
