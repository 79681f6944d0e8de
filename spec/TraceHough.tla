-------------------------------- MODULE TraceHough ------------------------------
EXTENDS Hough, Conf
TInit == l = 1
Fun(o) == F(o[1], o[2], Cut(o[3]))
\* everything stored for a mode derives from its radial function
OutOk(e) == \E O \in {Outcome(e.c)} : /\ DOMAIN e.f = Names
                                      /\ \A n \in Names : Same(Fun(e.f[n]), O[n], e.c.nu)
                                      /\ e.mesh = "T" /\ e.unit = "T"
\* the operator whose eigenvalues are computed
OpOk(e) == /\ Same(Fun(e.c2), Co2(e.c), e.c.nu) /\ Same(Fun(e.c1), Co1(e.c), e.c.nu) /\ Same(Fun(e.c0), Co0(e.c), e.c.nu)
           /\ e.odd = e.k % 2 /\ e.sine = Abs(e.c.m) % 2
PickOk(e) == e.got \in Nearest(e.eigs, e.want)
\* the eigenvalue asked for
WantOk(e) == CASE e.mode = "none" -> e.want = -(e.l * (e.l + 1))
               [] e.mode = "some" -> e.want = -e.given
               [] OTHER -> e.want = e.given
\* solved for real: the law, and without rotation a Legendre function
RealOk(e) == /\ e.law = "T" /\ e.mesh = "T" /\ e.unit = "T"
             /\ e.c.nu[1] = 0 => /\ e.lam = -(e.l * (e.l + 1))
                                 /\ Len(Cut(e.c.p)) = e.l - Hr(e.c).e + 1
                                 /\ Eigen([e.c EXCEPT !.p = Cut(@)], e.lam)
TStep == /\ \/ At("begin")
            \/ At("out") /\ OutOk(E)
            \/ At("op") /\ OpOk(E)
            \/ At("pick") /\ WantOk(E) /\ PickOk(E)
            \/ At("real") /\ RealOk(E)
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject
         \/ Finish
TSpec == TInit /\ [][TNext]_l
=================================================================================
