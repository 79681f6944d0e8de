--------------------------------- MODULE Analysis --------------------------------
(* What the analysis and the plots make of solved models.  A model is a list of  *)
(* files, each a list of rows (one per triad); the model's table is their        *)
(* concatenation, and everything below is a function of one model's table.       *)
(* Row: n radial orders; co corotating frequencies (cycles per day); g rates     *)
(* (cycles per day); thr threshold amplitude and eq equilibrium amplitude of the *)
(* parent (ppm, thr = 0: not parametric or no solution); s surface amplitudes    *)
(* (-1: no number); par, dir scenario; chk the last three checks.                *)
EXTENDS Freq
VARIABLE models           \* sequence of [files, l, m, rot]
AnaInit == models = <<>>
Load(ms) == models' = ms
RECURSIVE Joined(_)
Joined(fs) == IF fs = <<>> THEN <<>> ELSE Head(fs) \o Joined(Tail(fs))
Table(md) == Joined(md.files)

(* ------------------------------ masks --------------------------------------- *)
Stable(r) == r.chk[1] /\ r.chk[2] /\ r.chk[3]
Abs_(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
DetOf(r) == r.co[1] - r.co[2] - r.co[3]
MinCo(r) == Min2(Abs_(r.co[1]), Min2(Abs_(r.co[2]), Abs_(r.co[3])))
WithinDet(r, num, den) == Abs_(DetOf(r)) * den <= num * MinCo(r)
AeValid(r) == WithinDet(r, 1, 10)
Valued(r) == r.thr > 0
ModesOf(r) == {<<"p", r.n[1]>>, <<"d", r.n[2]>>, <<"d", r.n[3]>>}
\* its threshold is the lowest of those of all the triads of any of its modes, and the
\* next-lowest threshold of its parent is not reached by the parent's equilibrium amplitude
Isolated(t, i) ==
  /\ Valued(t[i])
  /\ \A j \in DOMAIN t : j # i /\ Valued(t[j]) =>
       /\ ModesOf(t[i]) \intersect ModesOf(t[j]) # {} => t[i].thr <= t[j].thr
       /\ t[i].n[1] = t[j].n[1] => t[j].thr > t[i].eq
Harmonic(r) == r.n[2] = r.n[3]
\* selections of the overview plot: three disjoint classes of stable, non-harmonic triads
Class(t, i) == IF ~Stable(t[i]) \/ Harmonic(t[i]) THEN "none"
               ELSE IF ~AeValid(t[i]) THEN "stable"
               ELSE IF ~Isolated(t, i) THEN "ae" ELSE "valid"
\* selections of the sharpness histogram
Sharp(t, i) == IF ~Stable(t[i]) \/ ~AeValid(t[i]) THEN "none" ELSE IF Isolated(t, i) THEN "iso" ELSE "not"
\* restriction to bright enough thresholds: a mode, in its place, is out when any of its
\* triads is below the minimum or has no threshold
Dim(t, c, o, min) == \E j \in DOMAIN t : t[j].n[c] = o /\ (~Valued(t[j]) \/ t[j].thr < min)
Bright(t, i, min) == \A c \in 1..3 : ~Dim(t, c, t[i].n[c], min)

(* ------------------------------ observables --------------------------------- *)
None == <<0, 0>>
GOf(r) == r.g[1] + r.g[2] + r.g[3]
Inertial(r, md) == [i \in 1..3 |-> r.co[i] + md.m[i] * md.rot]
\* nonlinear shifts: the detuning is shared out in proportion to the rates
Shift(r) == [i \in 1..3 |-> RMul(RInt(IF i = 1 THEN -DetOf(r) ELSE DetOf(r)), R(r.g[i], GOf(r)))]
NonLin(r, md) == [i \in 1..3 |-> RAdd(RInt(Inertial(r, md)[i]), Shift(r)[i])]
Over(a, b) == IF a < 0 \/ b <= 0 THEN None ELSE R(a, b)       \* -1: not a number
\* amplitude of the excited modes over that of the drivers
Ratios(r) == IF r.par THEN <<Over(r.s[2], r.s[1]), Over(r.s[3], r.s[1])>>
             ELSE IF r.dir THEN <<Over(r.s[1], r.s[2]), Over(r.s[1], r.s[3])>> ELSE <<None, None>>
RatioVb(r) == IF (r.par \/ r.dir) /\ r.s[2] >= 0 /\ r.s[3] >= 0 THEN Over(r.s[1], r.s[2] * r.s[3]) ELSE None
Slowest(r, md) == The({IF RLeq(x[1], x[2]) THEN (IF RLeq(x[1], x[3]) THEN x[1] ELSE x[3]) ELSE (IF RLeq(x[2], x[3]) THEN x[2] ELSE x[3]) : x \in {NonLin(r, md)}})
\* a negative frequency shows up at its alias, up to four times the Nyquist frequency
Nyquist == <<15282, 625>>
Times(f) == (f[1] * 625) \div (f[2] * 15282)
Fold(f) == LET k == Times(f) IN IF k % 2 = 0 THEN RSub(f, RMul(RInt(k), Nyquist)) ELSE RSub(RMul(RInt(k + 1), Nyquist), f)
Shown(f) == IF f[1] >= 0 THEN f ELSE IF Times(RNeg(f)) < 4 THEN Fold(RNeg(f)) ELSE f
=================================================================================
