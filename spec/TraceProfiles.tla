------------------------------ MODULE TraceProfiles ------------------------------
EXTENDS Profiles, Conf
TInit == l = 1
Poly(e) == e.kind # "mesa"
What(e) == IF e.exact THEN IF e.brunt THEN "exact" ELSE "mixed" ELSE "numeric"
\* a property of the star on the mesh of the triad, uncut: given there, or interpolated from its own mesh
Whole(e, k, XL, own) == IF own THEN Ints(e.c[k]) ELSE On(e.sx, Ints(e.s[k]), XL)
StarOf(e, XL) ==
  [rho |-> Inner(Whole(e, "rho", XL, ~Poly(e))), M |-> Inner(Whole(e, "M", XL, ~Poly(e))), P |-> Inner(Whole(e, "P", XL, ~Poly(e))),
   As |-> Inner(Whole(e, "As", XL, ~Poly(e))), U |-> Inner(Whole(e, "U", XL, ~Poly(e))), c1 |-> Inner(Whole(e, "c1", XL, ~Poly(e))),
   V2 |-> Inner(Whole(e, "V2", XL, ~Poly(e))), N2 |-> Inner(Whole(e, "N2", XL, FALSE)), gam |-> Inner([i \in DOMAIN XL |-> <<e.c.gam[i][1], e.c.gam[i][2]>>])]
Given(e, XL, k) == Inner(On(e.sx, Ints(e.s[k]), XL))
Grad == {"g", "dg", "ddg"}
Press == {"dP", "ddP", "dddP"}
Dens == {"drho", "ddrho", "dddrho"}
NormP(e, s) == IF Poly(e) THEN RInt(e.P0) ELSE RMax(s.P)
NormRho(e, s) == IF Poly(e) THEN RInt(e.rho0) ELSE RMax(s.rho)
StructOk(e, XL, X, s) ==
  /\ e.o.x = [i \in DOMAIN X |-> R(X[i], e.K)]
  /\ \A k \in {"As", "U", "c1", "V2", "gam"} : e.o[k] = s[k]
  /\ (~Poly(e) => e.o.adder = Inner(On(e.sx, Ints(e.s.adder), XL)))
  /\ e.o.P = Scaled(s.P, NormP(e, s)) /\ e.o.rho = Scaled(s.rho, NormRho(e, s))
  /\ \E z \in {IF e.kind = "poly" THEN [k \in Grad \cup Press \cup Dens |-> Given(e, XL, k)] ELSE Structure(What(e), X, R(e.K, e.R), RInt(e.G), s)} :
       /\ \A k \in Grad : e.o[k] = z[k]
       /\ \A k \in Press : e.o[k] = Scaled(z[k], NormP(e, s))
       /\ \A k \in Dens : e.o[k] = Scaled(z[k], NormRho(e, s))
Waves(m, XL) == [y1 |-> Inner(On(m.x, Ints(m.y1), XL)), y2 |-> Inner(On(m.x, Ints(m.y2), XL)), l |-> m.l, lam |-> RInt(m.lam), om2 |-> R(m.om[1] * m.om[1], m.om[2] * m.om[2])]
ModesOk(e, XL, X, s) == \A i \in DOMAIN e.m : \E z \in {Mode(e.exact, X, e.K, R(e.R * e.R * e.R, e.Ms), s, Waves(e.m[i], XL))} :
   \A k \in {"z1", "z2", "xz1", "z2c", "xz2c", "dxz1", "dxz2c", "div"} : e.o.m[i][k] = z[k]
TriadOk(e) == e.err = "" /\ \E XL \in {e.m[Longest([i \in DOMAIN e.m |-> e.m[i].x])].x} : \E X \in {Inner(XL)} : \E s \in {StarOf(e, XL)} :
                StructOk(e, XL, X, s) /\ ModesOk(e, XL, X, s)
TStep == /\ \/ At("begin")
            \/ At("triad") /\ TriadOk(E)
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject
         \/ Finish
TSpec == TInit /\ [][TNext]_l
==================================================================================
