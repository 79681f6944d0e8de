----------------------------- MODULE TraceTriadGate -----------------------------
EXTENDS TriadGate, Conf
TInit == tr = [x |-> 0] /\ az = "?" /\ mer = "?" /\ lin = "?" /\ verdict = "?" /\ pc = "idle" /\ l = 1
\* the generic pre-check on a list of triads (possibly permuted or with a mode taken twice)
ConjOf(e, i) == IF e.conj = <<>> THEN DefaultConj ELSE e.conj[i]
GenericOk(e) ==
  /\ Len(e.ks) = Len(e.triads)
  /\ \A i \in 1..Len(e.triads) : e.ks[i] = MeridionalOrders(e.modes, e.triads[i])
  /\ LET each == [i \in 1..Len(e.triads) |-> B(Selected(e.modes, e.triads[i], ConjOf(e, i)))]
     IN IF e.all THEN e.res = <<B(\A i \in 1..Len(each) : each[i] = "T")>> ELSE e.res = each
ScenarioOk(e) == e.par = B(Parametric(e.g)) /\ e.dir = B(Direct(e.g)) /\ e.drv = B(Driven(e.g))
GssOk(e) == e.arr = B(SumStable(e.g)) /\ e.lst = B(SumStable(e.g)) /\ e.flt = B(SumStable(e.g))
StabOk(e) ==
  CASE e.which = "quartic" -> e.res = B(QuarticHolds(e.g, e.qn, e.qd))
    [] e.which = "twopar" -> e.res = B(TwoModeParametricStable(e.g, e.qn, e.qd))
    [] e.which = "twodir" -> e.res = B(TwoModeDirectStable(e.g))
JacOk(e) == LET J == IF e.n = 4 THEN Jac4(e.g, e.qn, e.qd) ELSE Jac3(e.g, e.qn, e.qd)
            IN \A k \in 1..Len(e.cycles) : e.prods[k] = CycleProduct(J, e.cycles[k], 1)
\* hyperbolicity of an integer matrix whose spectrum is known exactly from its invariants
Singular(M) == CASE Len(M) = 2 -> Det2(M) = 0 [] Len(M) = 3 -> Det3(M, 1, 2, 3) = 0 [] Len(M) = 4 -> Det4(M) = 0
AxisPair2(M) == M[1][1] + M[2][2] = 0 /\ Det2(M) > 0          \* purely imaginary pair
AxisPair3(M) ==
  LET a2 == -(M[1][1]+M[2][2]+M[3][3])  a1 == Minor2(M,1,2)+Minor2(M,1,3)+Minor2(M,2,3)  a0 == -Det3(M,1,2,3)
  IN a1 > 0 /\ a2 * a1 = a0
AxisPair4(M) ==
  LET a3 == -(M[1][1]+M[2][2]+M[3][3]+M[4][4])
      a2 == Minor2(M,1,2)+Minor2(M,1,3)+Minor2(M,1,4)+Minor2(M,2,3)+Minor2(M,2,4)+Minor2(M,3,4)
      a1 == -(Det3(M,1,2,3)+Det3(M,1,2,4)+Det3(M,1,3,4)+Det3(M,2,3,4))
      a0 == Det4(M)
  IN IF a3 # 0 THEN a1 * a3 > 0 /\ a1 * (a3 * a2 - a1) = a3 * a3 * a0
     ELSE a1 = 0 /\ (a0 < 0 \/ (a2 > 0 /\ a2 * a2 >= 4 * a0))
Hyperbolic(M) == ~Singular(M) /\ ~(CASE Len(M) = 2 -> AxisPair2(M) [] Len(M) = 3 -> AxisPair3(M) [] Len(M) = 4 -> AxisPair4(M))
HyperOk(e) == IF e.bad # "" THEN e.res = "F" ELSE e.res = B(Hyperbolic(e.m))
\* the angular overlap integral: zero unless the signed azimuthal orders cancel, else
\* 2 pi times the (trapezoidal) integral of the product of the factors over the mesh
RECURSIVE Prod(_, _, _), SumF(_, _)
Prod(fs, i, k) == IF k = 0 THEN 1 ELSE fs[k][i] * Prod(fs, i, k - 1)
SumF(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumF(f, k - 1)
AngularRule(e) == e.free \/ SumF([i \in 1..3 |-> IF e.conj[i] THEN -e.m[i] ELSE e.m[i]], 3) = 0
AngOk(e) ==
  IF ~AngularRule(e) THEN e.zero
  ELSE e.exact =>
       \E g \in {[i \in DOMAIN e.xs |-> Prod(e.fs, i, Len(e.fs)) * (IF e.mul THEN e.xs[i] ELSE e.n)
                                         * (IF e.sin = <<>> THEN 60 ELSE (60 * e.n) \div e.sin[i])]} :
          e.val = SumF([i \in 1..(Len(g) - 1) |-> (g[i] + g[i+1]) * (e.xs[i+1] - e.xs[i])], Len(g) - 1)
Look(name, ok) == At(name) /\ ok /\ UNCHANGED gate
TStep == /\ \/ At("begin") /\ (IF E.kind = "gate" THEN Enter(E) ELSE UNCHANGED gate)
            \/ Look("generic", GenericOk(E))
            \/ At("selection") /\ CheckGeneric /\ E.res = B(az' = "T" /\ mer' = "T")
            \/ At("verdict") /\ LinAndDecide /\ verdict' = E.res
            \/ Look("ang", AngOk(E))
            \/ Look("scenario", ScenarioOk(E))
            \/ Look("gss", GssOk(E))
            \/ Look("stab", StabOk(E))
            \/ Look("jac", JacOk(E))
            \/ Look("hyper", HyperOk(E))
            \/ Look("jachyper", E.res = "T")
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ UNCHANGED gate
         \/ Finish /\ UNCHANGED gate
TSpec == TInit /\ [][TNext]_<<gate, l>>
=================================================================================
