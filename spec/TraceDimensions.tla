----------------------------- MODULE TraceDimensions ----------------------------
EXTENDS Dimensions, Conf
TInit == l = 1
Si(e) == e.sys \in {"SI", "si"}
\* squared factor of a quantity at point i of its profile: the power of G it comes with, and the rest
Fac(e, k, i) == IF k \in DOMAIN Mech THEN [g |-> TwoG(Mech[k]), v |-> Factor2(Mech[k], e.star.M_star, e.star.R_star)]
                ELSE [g |-> 0, v |-> Pw(IF Local[k] = "L_star" THEN e.star.L_star ELSE e.prof[Local[k]][i], 2)]
\* o: what is stored for k: a dimensioned version or not, unit factor, recombined or plain, squared factors per power of G; f1 the factor itself
QOk(e, k) == \E o \in {e.q[k]} :
    IF HasDim(k) THEN /\ o.dim = "T" /\ o.cplx = (IF k \in Complex THEN "T" ELSE "F")
                      /\ \A i \in DOMAIN o.f2 : \E w \in {Fac(e, k, i)} : o.f2[i][w.g + 1] = w.v
                 ELSE /\ o.dim = "F" /\ o.cplx = (IF k \in Complex THEN "T" ELSE "F")
                      /\ \A i \in DOMAIN o.f1 : o.f1[i] = Unit(k, Si(e))
GyreOk(e) == e.err = "" /\ e.g = (IF Si(e) THEN "si" ELSE "cgs") /\ \A k \in DOMAIN e.q : QOk(e, k)
PolyOk(e) == /\ e.err = "" /\ e.g = (IF Si(e) THEN "si" ELSE "cgs") /\ e.mass = "T" /\ e.radius = "T"
             /\ \A k \in DOMAIN e.q : e.q[k].dim = "F" /\ e.q[k].cplx = (IF k \in Complex THEN "T" ELSE "F") /\ \A i \in DOMAIN e.q[k].f1 : e.q[k].f1[i] = RInt(1)
TStep == /\ \/ At("begin")
            \/ At("gyre") /\ GyreOk(E)
            \/ At("poly") /\ PolyOk(E)
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject
         \/ Finish
TSpec == TInit /\ [][TNext]_l
=================================================================================
