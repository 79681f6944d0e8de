-------------------------------- MODULE TraceGrid -------------------------------
EXTENDS Grid, Conf
VARIABLES at       \* triad whose record is being read (only after the run)
TInit == GridInit /\ at = <<>> /\ l = 1
F(x) == IF x THEN "T" ELSE "F"
NoGate == UNCHANGED gate
Path(sub, pre) == w.base \o (IF sub = "" THEN pre \o ToString(w.pct) ELSE sub) \o "/"
AdPath == Path(w.adpath, "output_rot_")
NadPath == Path(w.nadpath, "output_nad_rot_")
\* files are requested for all three modes of the triad, from the right folder
LoadOk(e) == /\ e.l = w.l /\ e.m = w.m
             /\ CASE e.src = "ad" -> e.dir = AdPath /\ e.struct
                  [] e.src = "nad" -> e.dir = NadPath
                  [] e.src = "poly" -> e.dir = w.polydir /\ e.sdir = w.polysdir /\ e.struct
\* the coupling is computed from the modes of the current triad and the structure
BuildOk(e) == /\ e.src = (IF w.poly THEN "poly" ELSE IF w.adiab THEN "ad" ELSE "nad")
              /\ e.struct /\ e.poly = F(w.poly)
              /\ e.cplx = F(w.cplx /\ UseNad)
              /\ e.l = w.l /\ e.m = w.m /\ e.conj = w.conj /\ e.fh
\* what the solver keeps of triad n
CouplingOk(e, n) ==
  LET c == MayCouple(n) IN
  /\ e.cc = (IF c THEN Cc(n) ELSE <<0, 0>>) /\ e.ncc = (IF c THEN Ncc(n) ELSE <<0, 0>>) /\ e.eta = (IF c THEN Eta(n) ELSE <<0, 0>>)
  /\ e.terms = (IF c THEN Term(n) ELSE <<0, 0, 0, 0>>)
  /\ e.norm = (IF c THEN Norm(n) ELSE <<0, 0, 0>>)
  /\ e.adiab = F(w.adiab)
  /\ e.hyper = F(Hyper(n))
  /\ e.mean3 = MeanN(n) /\ e.wu = WuN(n)
FrequencyOk(e) ==
  /\ FreqsOk(e.ad, ad) /\ e.spin = Spin(ad) /\ e.rotf = In(req, rot) /\ e.req = req
  /\ ~w.poly => FreqsOk(e.nad, nad) /\ e.q = Quality(ad)
StationaryOk(e, n) ==
  /\ e.gam = Each(gam, LAMBDA g : In(req, g)) /\ e.gsum = In(req, GammaSum)
  /\ e.det = In(req, Detuning(ad)) /\ e.qf = QFac(ad) /\ e.qc = QCrit(ad)
  /\ e.stable = F(Admitted(n)) /\ e.shyp = F(Hyper(n))
  /\ e.a = AmpSq(n) /\ e.f = FluxSq(n) /\ e.acrit = AcritSq(n)
  /\ e.tanphase = TanPhase(n) /\ e.tanlum = TanPhase(n)
RecOk(e, n) == CouplingOk(e, n) /\ FrequencyOk(e) /\ (IF w.poly THEN e.stat = "none" ELSE e.stat = "dict" /\ StationaryOk(e, n))
\* one row of the saved file
Mod2(c) == RSq(c[1], c[2])
RowOk(e, n) ==
  LET c == MayCouple(n) IN
  /\ e.n = n /\ e.wu = WuN(n)
  /\ e.kappa2 = (IF c THEN Mod2(Cc(n)) ELSE RInt(0)) /\ e.knorm2 = (IF c THEN Mod2(Ncc(n)) ELSE RInt(0)) /\ e.eta2 = (IF c THEN Mod2(Eta(n)) ELSE RInt(0))
  /\ e.nonneg /\ e.adiab = F(w.adiab)
  /\ e.terms = (IF c THEN Term(n) ELSE <<0, 0, 0, 0>>) /\ e.norm = (IF c THEN Norm(n) ELSE <<0, 0, 0>>)
  /\ FreqsOk(e.ad, ad) /\ e.spin = Spin(ad) /\ e.rotf = In(req, rot)
  /\ ~w.poly =>
       /\ FreqsOk(e.nad, nad) /\ e.q = Quality(ad) /\ e.gam = Each(gam, LAMBDA g : In(req, g))
       /\ e.gsum = In(req, GammaSum) /\ e.det = In(req, Detuning(ad)) /\ e.qf = QFac(ad) /\ e.qc = QCrit(ad)
       /\ e.a = AmpSq(n) /\ e.f = FluxSq(n) /\ e.acrit = AcritSq(n) /\ e.tanphase = TanPhase(n) /\ e.tanlum = TanPhase(n)
       /\ e.checks = <<F(Parametric(gam)), F(Direct(gam)), F(Driven(gam)), F(SumStable(gam)), F(Admitted(n)), F(Hyper(n))>>
FreqSets == {"inert_mode_freqs", "corot_mode_freqs", "inert_mode_omegas", "corot_mode_omegas", "inert_dimless_mode_freqs",
             "corot_dimless_mode_freqs", "inert_dimless_mode_omegas", "corot_dimless_mode_omegas"}
Under(g, S) == {g \o "/" \o x : x \in S}
CommonSets == {"quantum_numbers/n", "mode_statistics/wu", "rotation/spin_factors", "rotation/surface_rotation_frequency", "normalization/radial"}
  \union Under("mode_frequency_info", FreqSets)
  \union Under("coupling/generic", {"|kappa|", "|kappa_norm|", "|eta|", "adiabatic", "quadratic_terms"})
FullSets == CommonSets \union {"checks/pre_checks"} \union Under("nad_mode_frequency_info", FreqSets)
  \union Under("linear_driving", {"driving_rates", "quality_factors"})
  \union Under("coupling/stationary_three_mode", {"detunings", "gammas", "critical_parent_amplitudes", "stationary_relative_phases",
       "stationary_relative_luminosity_phases", "q_factors", "critical_q_factors", "equilibrium_theoretical_amplitudes", "surface_flux_variations"})
\* every dataset is there, each with one row per triad; the run is identified by its attributes
FileOk(e) == /\ (IF w.poly THEN CommonSets ELSE FullSets) \subseteq ToSet(e.sets)
             /\ \A i \in DOMAIN e.rows : e.rows[i] = Cardinality(AllKeys)
             /\ e.l = w.l /\ e.m = w.m /\ e.k = [i \in 1..3 |-> w.l[i] - Abs(w.m[i])]
             /\ e.units = req
             /\ e.attrs = <<w.method, F(w.cheby), w.chebmul, F(w.blow), w.blowfac>>
\* triad n as the analysis side (who: analyser or plotter) finds it in that file
SeenOk(e, n) ==
  LET c == MayCouple(n) IN
  /\ e.n = n /\ e.l = w.l /\ e.m = w.m /\ e.k = [i \in 1..3 |-> w.l[i] - Abs(w.m[i])]
  /\ e.cf = CorotF(ad) /\ e.co = CorotF(ad) /\ e.if = InertF(ad) /\ e.io = InertF(ad) /\ e.dif = InertD(ad) /\ e.dio = InertD(ad)
  /\ e.kappa2 = (IF c THEN Mod2(Cc(n)) ELSE RInt(0)) /\ e.knorm2 = (IF c THEN Mod2(Ncc(n)) ELSE RInt(0))
  /\ e.gam = Each(gam, LAMBDA g : In(req, g)) /\ e.a = AmpSq(n) /\ e.f = FluxSq(n) /\ e.acrit = AcritSq(n) /\ e.tanlum = TanPhase(n)
  /\ e.checks = <<F(Parametric(gam)), F(Direct(gam)), F(Driven(gam)), F(SumStable(gam)), F(Admitted(n)), F(Hyper(n))>>
  /\ e.stable = F(SumStable(gam) /\ Admitted(n) /\ Hyper(n))
  \* what it derives agrees with what the solver recorded
  /\ (\E i \in 1..3 : w.m[i] # 0) => e.rotf = In(req, rot) /\ e.spin = Spin(ad)
  /\ e.det = In(req, Detuning(ad)) /\ e.gsum = In(req, GammaSum) /\ e.q = QFac(ad)
Keep == UNCHANGED <<freq, gate>>
TStep == /\ \/ At("begin") /\ Begin(E.w) /\ at' = <<>> /\ Keep
            \/ At("load") /\ LoadOk(E) /\ Load(E.src, E.n) /\ UNCHANGED at /\ Keep
            \/ At("build") /\ BuildOk(E) /\ Build(E.n) /\ UNCHANGED at /\ Keep
            \/ At("compute") /\ Compute /\ UNCHANGED at /\ Keep
            \/ At("disc") /\ pend # <<>> /\ E.n \in ToSet(pend) /\ E.ld = w.ld /\ E.method = w.method /\ coupled = "done" /\ UNCHANGED <<world, at>> /\ Keep
            \/ At("end") /\ End /\ E.records = Cardinality(AllKeys) /\ UNCHANGED at /\ Keep
            \/ /\ At("pick") /\ phase = "end" /\ Wanted(E.n) /\ Key(E.n) \in visited
               /\ visited' = visited \ {Key(E.n)} /\ at' = E.n
               /\ rot' = w.rot /\ req' = w.req /\ tsec' = w.tsec /\ ad' = AdOf(E.n) /\ nad' = NadOf(E.n) /\ gam' = GamOf(E.n) /\ stage' = "nad"
               /\ UNCHANGED <<w, pend, loaded, coupled, phase, gate>>
            \/ At("rec") /\ RecOk(E, at) /\ UNCHANGED <<world, at>> /\ Keep
            \/ At("file") /\ phase = "end" /\ FileOk(E) /\ UNCHANGED <<world, at>> /\ Keep
            \/ At("row") /\ RowOk(E, at) /\ UNCHANGED <<world, at>> /\ Keep
            \/ At("seen") /\ SeenOk(E, at) /\ UNCHANGED <<world, at>> /\ Keep
            \/ At("read") /\ phase = "end" /\ visited = {} /\ visited' = AllKeys /\ UNCHANGED <<w, pend, loaded, coupled, phase, at>> /\ Keep
            \/ At("allread") /\ visited = {} /\ UNCHANGED <<world, at>> /\ Keep
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ UNCHANGED <<world, at>> /\ Keep
         \/ Finish /\ UNCHANGED <<world, at>> /\ Keep
TSpec == TInit /\ [][TNext]_<<world, at, freq, gate, l>>
=================================================================================
