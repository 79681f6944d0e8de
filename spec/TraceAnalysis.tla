------------------------------ MODULE TraceAnalysis ------------------------------
EXTENDS Analysis, Conf
TInit == AnaInit /\ FreqInit /\ l = 1
F(x) == IF x THEN "T" ELSE "F"
On(t, P(_)) == [i \in DOMAIN t |-> F(P(i))]
\* masks of model k as the analyser keeps them
AnaMasksOk(e) ==
  \E t \in {Table(models[e.k])} :
     /\ e.stab = On(t, LAMBDA i : Stable(t[i]))
     /\ e.ae = On(t, LAMBDA i : AeValid(t[i]))
     /\ e.iso = On(t, LAMBDA i : Isolated(t, i))
     /\ e.val = On(t, LAMBDA i : AeValid(t[i]) /\ Isolated(t, i))
     /\ e.sv = On(t, LAMBDA i : Stable(t[i]) /\ AeValid(t[i]) /\ Isolated(t, i))
\* masks of model k as the plotter keeps them
PlotMasksOk(e) ==
  \E t \in {Table(models[e.k])} :
     /\ e.stable = On(t, LAMBDA i : Class(t, i) = "stable")
     /\ e.ae = On(t, LAMBDA i : Class(t, i) = "ae")
     /\ e.valid = On(t, LAMBDA i : Class(t, i) = "valid")
     /\ e.iso = On(t, LAMBDA i : Sharp(t, i) = "iso")
     /\ e.not = On(t, LAMBDA i : Sharp(t, i) = "not")
     /\ e.niso = Cardinality({i \in DOMAIN t : Sharp(t, i) = "iso"})
     /\ e.nnot = Cardinality({i \in DOMAIN t : Sharp(t, i) = "not"})
\* restricted selections: e.lum the least threshold (0: any), e.pct the largest detuning (0: any)
CutOk(e) ==
  \E t \in {Table(models[e.k])} :
     LET In2(i) == (e.lum > 0 => Bright(t, i, e.lum)) /\ (e.pct > 0 => WithinDet(t[i], e.pct, 100))
     IN /\ e.iso = On(t, LAMBDA i : Sharp(t, i) = "iso" /\ In2(i))
        /\ e.not = On(t, LAMBDA i : Sharp(t, i) = "not" /\ In2(i))

Cpd(x) == x
Mu(x) == RMul(x, <<625, 54>>)
Three(f(_)) == [i \in 1..3 |-> f(i)]
CommonObs(e, r, md) ==
  /\ e.det = RInt(DetOf(r)) /\ e.detmu = Mu(RInt(DetOf(r))) /\ e.detmin = R(DetOf(r), MinCo(r))
  /\ e.rot = RInt(md.rot) /\ e.rotmu = Mu(RInt(md.rot))
  /\ e.spin = Three(LAMBDA i : R(2 * md.rot, r.co[i]))
  /\ e.co = Three(LAMBDA i : RInt(r.co[i])) /\ e.in = Three(LAMBDA i : RInt(Inertial(r, md)[i]))
  /\ e.cof = e.co /\ e.inf = e.in
  /\ e.comu = Three(LAMBDA i : Mu(RInt(r.co[i]))) /\ e.inmu = Three(LAMBDA i : Mu(RInt(Inertial(r, md)[i])))
  /\ e.cofmu = e.comu /\ e.infmu = e.inmu
  /\ e.thr = (IF Valued(r) THEN RInt(r.thr) ELSE None)
  /\ e.g = Three(LAMBDA i : RInt(r.g[i])) /\ e.gmu = Three(LAMBDA i : Mu(RInt(r.g[i])))
  /\ e.ratio = Ratios(r) /\ e.vb = RatioVb(r)
  /\ e.kap = r.kap /\ e.kapn = r.kapn /\ e.n = r.n
  /\ e.shift = Shift(r) /\ e.shiftmu = Three(LAMBDA i : Mu(Shift(r)[i]))
  /\ e.rel = Three(LAMBDA i : RDiv(Shift(r)[i], RInt(Inertial(r, md)[i])))
AnaObsOk(e) ==
  \E md \in {models[e.k]} : \E r \in {Table(md)[e.i]} :
    /\ CommonObs(e, r, md)
    /\ e.nl = NonLin(r, md)
    /\ e.Q1 = R(r.co[1], r.g[1])
    /\ e.gsum = RInt(GOf(r)) /\ e.gs2 = RInt(GOf(r))
    /\ e.q = R(DetOf(r), GOf(r)) /\ e.q1 = R(DetOf(r), r.g[1]) /\ e.q3 = R(DetOf(r), r.g[3])
    /\ e.th = <<R(-r.g[2], r.g[1]), R(-r.g[3], r.g[1]), R(r.g[2], r.g[3])>>
    /\ e.phase = r.ph
PlotObsOk(e) ==
  \E md \in {models[e.k]} : \E r \in {Table(md)[e.i]} :
    /\ CommonObs(e, r, md)
    /\ e.sharp = R(DetOf(r), r.g[2] + r.g[3])
    /\ e.tdyn = Three(LAMBDA i : RInt(md.tdyn))
    /\ \E s \in {Slowest(r, md)} : e.neg = F(s[1] < 0) /\ e.min = <<Shown(s), Shown(s)>>

\* the models are kept apart, in the order requested, each with all the rows of its files in order
LayoutOk(e) ==
  /\ e.kap = [k \in DOMAIN models |-> [i \in 1..Len(Table(models[k])) |-> Table(models[k])[i].kap]]
  /\ e.n = [k \in DOMAIN models |-> [i \in 1..Len(Table(models[k])) |-> Table(models[k])[i].n]]
  /\ e.m = [k \in DOMAIN models |-> models[k].m]
  /\ e.l = [k \in DOMAIN models |-> models[k].l]
  /\ e.kk = [k \in DOMAIN models |-> [i \in 1..3 |-> models[k].l[i] - Abs_(models[k].m[i])]]
\* sharpness data of the figure: all models, in order
RECURSIVE Sel(_, _, _)
Sel(t, i, c) == IF i > Len(t) THEN <<>> ELSE (IF Sharp(t, i) = c THEN <<R(DetOf(t[i]), t[i].g[2] + t[i].g[3])>> ELSE <<>>) \o Sel(t, i + 1, c)
RECURSIVE SelAll(_, _)
SelAll(k, c) == IF k > Len(models) THEN <<>> ELSE Sel(Table(models[k]), 1, c) \o SelAll(k + 1, c)
SharpOk(e) == \E a \in {SelAll(1, "iso")}, b \in {SelAll(1, "not")} : e.iso = a /\ e.not = b /\ e.all = a \o b
Num(k, P(_, _)) == LET t == Table(models[k]) IN Cardinality({i \in DOMAIN t : P(t, i)})
\* the printed numbers of triads of each model
CountsOk(e) ==
  e.counts = [k \in DOMAIN models |->
    << Len(Table(models[k])), Num(k, LAMBDA t, i : t[i].chk[1]), Num(k, LAMBDA t, i : t[i].chk[2]), Num(k, LAMBDA t, i : t[i].chk[3]),
       Num(k, LAMBDA t, i : AeValid(t[i])), Num(k, LAMBDA t, i : Isolated(t, i)), Num(k, LAMBDA t, i : Stable(t[i])),
       Num(k, LAMBDA t, i : AeValid(t[i]) /\ Isolated(t, i)), Num(k, LAMBDA t, i : Stable(t[i]) /\ AeValid(t[i]) /\ Isolated(t, i)) >>]
QBig(r) == RLess(R(r.co[1], r.g[1]), R(DetOf(r), GOf(r)))
Above1(x) == x # None /\ RLess(RInt(1), x)
Both1(r) == Above1(Ratios(r)[1]) /\ Above1(Ratios(r)[2])
Val(t, i) == AeValid(t[i]) /\ Isolated(t, i)
Sum1(P(_, _)) == MapThenSumSet(LAMBDA k : Num(k, P), DOMAIN models)
QCountsOk(e) ==
  /\ e.q = [k \in DOMAIN models |-> Num(k, LAMBDA t, i : QBig(t[i]))]
  /\ e.tot = << Sum1(LAMBDA t, i : QBig(t[i])), Sum1(LAMBDA t, i : Both1(t[i])), Sum1(LAMBDA t, i : QBig(t[i]) /\ Both1(t[i])), Sum1(LAMBDA t, i : ~QBig(t[i]) /\ Both1(t[i])),
       Sum1(LAMBDA t, i : QBig(t[i]) /\ Both1(t[i]) /\ Stable(t[i])), Sum1(LAMBDA t, i : QBig(t[i]) /\ Both1(t[i]) /\ ~Stable(t[i])),
       Sum1(LAMBDA t, i : QBig(t[i]) /\ Both1(t[i]) /\ AeValid(t[i])), Sum1(LAMBDA t, i : QBig(t[i]) /\ Both1(t[i]) /\ ~AeValid(t[i])),
       Sum1(LAMBDA t, i : QBig(t[i]) /\ Both1(t[i]) /\ Isolated(t, i)), Sum1(LAMBDA t, i : QBig(t[i]) /\ Both1(t[i]) /\ ~Isolated(t, i)),
       Sum1(LAMBDA t, i : QBig(t[i]) /\ Both1(t[i]) /\ Val(t, i)), Sum1(LAMBDA t, i : QBig(t[i]) /\ Both1(t[i]) /\ ~Val(t, i)),
       Sum1(LAMBDA t, i : QBig(t[i]) /\ Both1(t[i]) /\ Val(t, i) /\ Stable(t[i])), Sum1(LAMBDA t, i : QBig(t[i]) /\ Both1(t[i]) /\ ~(Val(t, i) /\ Stable(t[i]))),
       Sum1(LAMBDA t, i : Both1(t[i]) /\ AeValid(t[i])), Sum1(LAMBDA t, i : Both1(t[i]) /\ ~AeValid(t[i])) >>
(* the printed properties of the selected triads of each model: stable, valid, isolated, in order *)
Chosen(t) == SelectSeq([i \in DOMAIN t |-> [i |-> i, r |-> t[i]]], LAMBDA x : Stable(x.r) /\ AeValid(x.r) /\ Isolated(t, x.i))
Col(c, f(_)) == [j \in DOMAIN c |-> f(c[j].r)]
Larger(a, b) == IF RLess(a, b) THEN b ELSE a
Largest(f) == Larger(f[1], Larger(f[2], f[3]))
QAbs(x) == IF x[1] < 0 THEN RNeg(x) ELSE x
Rel(r, md) == [i \in 1..3 |-> QAbs(RDiv(Shift(r)[i], RInt(Inertial(r, md)[i])))]
Listed(c, md, what) ==
  CASE what = "modes" -> << Col(c, LAMBDA r : RInt(DetOf(r))), Col(c, LAMBDA r : RInt(1000 * GOf(r))),
         Col(c, LAMBDA r : RInt(r.co[1])), Col(c, LAMBDA r : RInt(r.co[2])), Col(c, LAMBDA r : RInt(r.co[3])),
         Col(c, LAMBDA r : RInt(100000 * r.g[1])), Col(c, LAMBDA r : RInt(100000 * r.g[2])), Col(c, LAMBDA r : RInt(100000 * r.g[3])),
         Col(c, LAMBDA r : Largest([i \in 1..3 |-> R(2 * md.rot, r.co[i])])) >>
    [] what = "estimators" -> << Col(c, LAMBDA r : QAbs(R(DetOf(r), MinCo(r)))), Col(c, LAMBDA r : QAbs(R(DetOf(r), GOf(r)))), Col(c, LAMBDA r : QAbs(R(DetOf(r), r.g[1]))),
         Col(c, LAMBDA r : R(-r.g[2], r.g[1])), Col(c, LAMBDA r : R(-r.g[3], r.g[1])), Col(c, LAMBDA r : r.kapn) >>
    [] what = "observables" -> << Col(c, LAMBDA r : RMul(RInt(1000), Largest(Rel(r, md)))), Col(c, LAMBDA r : r.ph), Col(c, LAMBDA r : Ratios(r)[1]), Col(c, LAMBDA r : Ratios(r)[2]) >>
ListedOk(e) ==
  \E md \in {models[e.k]} : \E c \in {Chosen(Table(md))} :
     /\ e.n = Col(c, LAMBDA r : r.n)
     /\ e.cols = Listed(c, md, e.what)
Same == UNCHANGED models
TStep == /\ \/ At("begin") /\ Load(E.models)
            \/ At("anamask") /\ AnaMasksOk(E) /\ Same
            \/ At("plotmask") /\ PlotMasksOk(E) /\ Same
            \/ At("cut") /\ CutOk(E) /\ Same
            \/ At("anaobs") /\ AnaObsOk(E) /\ Same
            \/ At("plotobs") /\ PlotObsOk(E) /\ Same
            \/ At("layout") /\ LayoutOk(E) /\ Same
            \/ At("sharp") /\ SharpOk(E) /\ Same
            \/ At("counts") /\ CountsOk(E) /\ Same
            \/ At("listed") /\ ListedOk(E) /\ Same
            \/ At("qcounts") /\ QCountsOk(E) /\ Same
         /\ l' = l + 1 /\ UNCHANGED freq
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ Same /\ UNCHANGED freq
         \/ Finish /\ Same /\ UNCHANGED freq
TSpec == TInit /\ [][TNext]_<<models, freq, l>>
=================================================================================
