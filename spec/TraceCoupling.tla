------------------------------ MODULE TraceCoupling -----------------------------
EXTENDS Coupling, Normaliser, Conf
TInit == l = 1
\* the begin event of a scenario holds its data
K(s, k, upto) == Kappa(k, s.m, s.b, s.x, s.mu, s.method, upto, s.az, s.conj)
RECURSIVE Sum(_, _)
Sum(t, n) == IF n = 0 THEN RInt(0) ELSE RAdd(Sum(t, n - 1), t[n])
Four(s, upto) == [k \in 1..4 |-> K(s, k, upto)]
\* the four terms, their sum, the sum over the energy of the first mode (e1), twice that
KappaOk(e) == \E t \in {Four(e.s, Len(e.s.x))} : /\ e.t = t
                                                 /\ e.sum = Sum(t, 4)
                                                 /\ e.normed = RDiv(Sum(t, 4), RInt(e.s.e1))
                                                 /\ e.eta = RMul(RInt(2), e.normed)
\* at every mesh point the integrals up to it; zero at the first
ProfileOk(e) == /\ Len(e.t) = Len(e.s.x) /\ Len(e.sum) = Len(e.s.x)
                /\ \A i \in DOMAIN e.t : \E t \in {IF i = 1 THEN [k \in 1..4 |-> RInt(0)] ELSE Four(e.s, i)} :
                     /\ e.t[i] = [k \in 1..4 |-> RDiv(t[k], RInt(e.s.e1))] /\ e.sum[i] = Sum(t, 4) /\ e.normed[i] = RDiv(Sum(t, 4), RInt(e.s.e1))
\* energies, in units of (2 pi)^2
EnergyOk(e) == \A k \in 1..3 : LET z == e.s.m[k] N == NormOf(z, e.s.b, e.s.x, e.s.mu, e.s.method) W == EnergyOf(z, e.s.b, e.s.x, e.s.mu, e.s.method, e.s.om[k], e.s.rot) IN
                  e.norm[k] = N /\ e.energy[k] = W /\ e.ba[k] = RDiv(W, RInt(e.s.om[k]))
\* normalisation: inv[k] is 1 / factor^2 in units of (2 pi)^2 / target; every function of the mode scaled by the factor, no other
ScaleOk(e) == \A k \in 1..3 : \E w \in {IF e.kind = "lee2012" THEN RDiv(EnergyOf(e.s.m[k], e.s.b, e.s.x, e.s.mu, e.s.method, e.s.om[k], e.s.rot), RInt(e.s.G * e.s.M * e.s.M))
                                        ELSE RDiv(NormOf(e.s.m[k], e.s.b, e.s.x, e.s.mu, e.s.method), RInt(e.s.M * e.s.b.R * e.s.b.R))} :
                 RLess(RInt(0), w) => /\ e.inv[k] = (IF e.kind = "lee2012" THEN RMul(w, RInt(e.s.b.R)) ELSE w)
                                      /\ e.after[k] = RInt(1)
                                      /\ \A f \in DOMAIN e.fun[k] : e.fun[k][f] = (IF f \in {"_z_1", "_z_2", "_x_z_1", "_z_2_over_c_1_omega", "_x_z_2_over_c_1_omega", "_rad_der_x_z_1", "_rad_der_x_z_2_c_1_omega", "_rad_diverg"}
                                                                                    \/ (~e.poly /\ f = "_lag_L_dim") THEN "scaled" ELSE "kept")
                                      /\ e.off[k] = e.miss[k]
Bit(x) == IF x THEN "T" ELSE "F"
ScriptOk(e) == \E f \in {Final(e.e, e.iter, e.max)} : /\ e.fac = f.fac /\ e.off = [i \in DOMAIN f.off |-> Bit(f.off[i])] /\ e.it = f.it
                                                      /\ e.chars = <<Bit(e.iter), e.max>>
                                                      /\ e.amp = [i \in DOMAIN f.fac |-> RMul(RInt(i), f.fac[i])]
                                                      /\ e.looks = f.cur
TStep == /\ \/ At("begin")
            \/ At("kappa") /\ KappaOk(E)
            \/ At("profile") /\ ProfileOk(E)
            \/ At("energy") /\ EnergyOk(E)
            \/ At("scale") /\ ScaleOk(E)
            \/ At("script") /\ ScriptOk(E)
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject
         \/ Finish
TSpec == TInit /\ [][TNext]_l
=================================================================================
