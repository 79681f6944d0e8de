------------------------------ MODULE TraceStationary ---------------------------
EXTENDS Stationary, Conf
TInit == FreqInit /\ l = 1
B(x) == IF x THEN "T" ELSE "F"
ReadAd(e) == /\ stage # "none" /\ FreqsOk(e, ad)
             /\ e.spin = Spin(ad)
             /\ e.rotf = In(req, rot) /\ e.rota = In(req, rot) /\ e.rps = In("HZ", rot)
             /\ e.conv = (IF rot = 0 THEN "skip" ELSE "ok")
             /\ e.angular = B(Angular(req)) /\ e.n = Len(ad)
             /\ e.det = In(req, Detuning(ad)) /\ e.det2 = <<In(req, Detuning(ad)), In(req, Detuning(ad))>>
\* the per-mode accessors return <<co-rotating, inertial>> of that mode
GetOk(e, s) == \A i \in 1..Len(s) :
  /\ e.f[i] = <<CorotF(s)[i], InertF(s)[i]>> /\ e.o[i] = e.f[i]
  /\ e.df[i] = <<CorotD(s)[i], InertD(s)[i]>> /\ e.do[i] = e.df[i]
ReadNad(e) ==
  /\ stage = "nad" /\ FreqsOk(e, nad)
  /\ e.gam = Each(gam, LAMBDA g : In(req, g)) /\ e.gsum = In(req, GammaSum)
  /\ e.q = Quality(ad) /\ e.qn = Quality(nad)
  /\ e.qp = QProducts(ad) /\ e.qpn = QProducts(nad)
  /\ e.det = In(req, Detuning(nad)) /\ e.det2 = <<e.det, e.det>>
  /\ e.qf = QFac(ad) /\ e.q1 = Q1Fac(ad) /\ e.qfn = QFac(nad) /\ e.q1n = Q1Fac(nad)
\* the stationary solution reported for the current triad
StatOk(e) ==
  /\ stage = "nad"
  /\ e.gam = Each(gam, LAMBDA g : In(req, g)) /\ e.gsum = In(req, GammaSum)
  /\ e.det = In(req, Detuning(ad)) /\ e.q = QFac(ad) /\ e.qc = QCrit(ad)
  /\ e.hyp = e.askhyp
  /\ IF e.pre
     THEN /\ e.stable = "T"
          /\ e.a = Solution(Quality(ad), QFac(ad), e.eta2)
          /\ e.acrit = CritSq(Quality(ad), QCrit(ad), e.eta2)
          /\ e.tanphase = RNeg(RInv(QFac(ad))) /\ e.principal = "T"
          /\ e.f = [i \in 1..3 |-> RMul(e.a[i], RInt(e.hough[i] * e.hough[i] * Response(e.tk[i], e.lum[i], e.ek[i], e.xi[i]) * Response(e.tk[i], e.lum[i], e.ek[i], e.xi[i])))]
          /\ e.lumphase = (IF e.azs = 0 THEN 0 ELSE (ad[1].m - ad[2].m - ad[3].m) * ((54 - e.azs) % 24))
     ELSE /\ e.stable = "F" /\ e.a = <<RInt(0), RInt(0), RInt(0)>> /\ e.f = e.a
          /\ e.none = "T"
Look(name, ok) == At(name) /\ ok /\ UNCHANGED freq
TStep == /\ \/ At("begin") /\ rot' = 0 /\ req' = "HZ" /\ tsec' = 1 /\ ad' = <<>> /\ nad' = <<>> /\ gam' = <<>> /\ stage' = "none"
            \/ At("setad") /\ SetModes(E)
            \/ At("setnad") /\ SetNad(E)
            \/ Look("readad", ReadAd(E))
            \/ Look("get", GetOk(E, IF E.which = "ad" THEN ad ELSE nad))
            \/ Look("readnad", ReadNad(E))
            \/ Look("stat", StatOk(E))
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ UNCHANGED freq
         \/ Finish /\ UNCHANGED freq
TSpec == TInit /\ [][TNext]_<<freq, l>>
=================================================================================
