----------------------------- MODULE TraceQuadrature ----------------------------
EXTENDS Quadrature, Conf
TInit == l = 1
Fr(s) == [i \in DOMAIN s |-> RInt(s[i])]
IntOk(e) == e.v = Quad(e.method, e.equal, Fr(e.f), Fr(e.x))
DiscOk(e) == e.t = DiscT(e.mu, Fr(e.h), e.method) /\ e.e = DiscE(e.mu, Fr(e.d1), Fr(e.d2), e.method)
Ready(e) == \E s \in {Integrand([k \in DOMAIN e.fs |-> Fr(e.fs[k])], e.mu, e.cos, e.sin)} : TRUE
\* in units of 2 pi
ThetaOk(e) == e.v = (IF AzimuthOk(e.only, e.m, e.conj) THEN Theta([k \in DOMAIN e.fs |-> Fr(e.fs[k])], e.mu, e.cos, e.sin, e.method) ELSE RInt(0))
\* the integrand over the sine is a + b mu; in units of 2 pi^2
ChebyOk(e) == e.v = (IF AzimuthOk(e.only, e.m, e.conj) THEN RInt(e.a) ELSE RInt(0))
\* protected: the regular result unless it exceeds the limit
GuardOk(e) == LET r == Theta([k \in DOMAIN e.fs |-> Fr(e.fs[k])], e.mu, FALSE, FALSE, e.method) IN
              IF RLess(RInt(e.fac), r) THEN e.c = RInt(e.a) ELSE e.v = r
\* 1 / (2 pi N^2) is the integral of the square; 1 / N the largest modulus
NormOk(e) == CASE e.kind = "lee2012" -> e.v = Trap([i \in DOMAIN e.h |-> RInt(e.h[i] * e.h[i])], e.mu)
               [] e.kind = "prat2019" -> e.v = MaxAbs(Fr(e.h))
TStep == /\ \/ At("begin")
            \/ At("int") /\ IntOk(E)
            \/ At("disc") /\ DiscOk(E)
            \/ At("theta") /\ ThetaOk(E)
            \/ At("cheby") /\ ChebyOk(E)
            \/ At("guard") /\ GuardOk(E)
            \/ At("norm") /\ NormOk(E)
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject
         \/ Finish
TSpec == TInit /\ [][TNext]_l
=================================================================================
