----------------------------------- MODULE Freq ---------------------------------
(* The frequencies of one mode triad.  Every physical frequency is an integer    *)
(* number of cycles per day; a reported value is an exact rational <<num, den>>  *)
(* in the requested unit (angular values are divided by 2 pi before comparison). *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Rational

(* ------------------------------ units --------------------------------------- *)
\* cyclic unit, per cycle per day
UnitOf(req) ==
  CASE req \in {"HZ", "RAD_PER_SEC"} -> <<1, 86400>>
    [] req = "UHZ" -> <<625, 54>>
    [] req \in {"CYC_PER_DAY", "CPD"} -> <<1, 1>>
Angular(req) == req = "RAD_PER_SEC"
In(req, n) == RMul(<<n, 1>>, UnitOf(req))       \* n cycles per day in the requested unit

(* ------------------------------ one mode ------------------------------------ *)
\* a mode: [m, frame, n]; n is the frequency in its own frame
Corot(md, r) == IF md.frame = "INERTIAL" THEN md.n - md.m * r ELSE md.n
Inert(md, r) == IF md.frame = "INERTIAL" THEN md.n ELSE md.n + md.m * r

(* ------------------------------ the triad ----------------------------------- *)
VARIABLES rot, req, tsec, ad, nad, gam, stage
freq == <<rot, req, tsec, ad, nad, gam, stage>>
FreqInit == rot = 0 /\ req = "HZ" /\ tsec = 1 /\ ad = <<>> /\ nad = <<>> /\ gam = <<>> /\ stage = "none"
\* new adiabatic information replaces everything known about an earlier triad
SetModes(e) == rot' = e.rot /\ req' = e.req /\ tsec' = e.tsec /\ ad' = e.modes /\ nad' = <<>> /\ gam' = <<>> /\ stage' = "ad"
SetNad(e) == stage \in {"ad", "nad"} /\ nad' = e.modes /\ gam' = e.gam /\ stage' = "nad" /\ UNCHANGED <<rot, req, tsec, ad>>

Each(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
CorotF(s) == Each(s, LAMBDA md : In(req, Corot(md, rot)))
InertF(s) == Each(s, LAMBDA md : In(req, Inert(md, rot)))
\* dimensionless: cycles per day over 86400 times the dynamical time in seconds
Dimless(n) == R(n * tsec, 86400)
CorotD(s) == Each(s, LAMBDA md : Dimless(Corot(md, rot)))
InertD(s) == Each(s, LAMBDA md : Dimless(Inert(md, rot)))
Spin(s) == Each(s, LAMBDA md : R(2 * rot, Corot(md, rot)))
Detuning(s) == Corot(s[1], rot) - Corot(s[2], rot) - Corot(s[3], rot)
GammaSum == gam[1] + gam[2] + gam[3]
Quality(s) == [i \in 1..3 |-> R(Corot(s[i], rot), gam[i])]
QProducts(s) == LET q == Quality(s) IN <<RMul(q[1], q[2]), RMul(q[1], q[3]), RMul(q[2], q[3])>>
QFac(s) == R(Detuning(s), GammaSum)
Q1Fac(s) == R(Detuning(s), gam[1])
\* everything a frequency handler reports about the modes s
FreqsOk(e, s) ==
  /\ e.cf = CorotF(s) /\ e.co = CorotF(s)
  /\ e.if = InertF(s) /\ e.io = InertF(s)
  /\ e.dcf = CorotD(s) /\ e.dco = CorotD(s)
  /\ e.dif = InertD(s) /\ e.dio = InertD(s)
=================================================================================
