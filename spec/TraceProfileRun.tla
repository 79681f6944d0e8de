----------------------------- MODULE TraceProfileRun -----------------------------
EXTENDS ProfileRun, Rational, Conf
TInit == l = 1
Run(e) == [n |-> e.n, l |-> e.l, m |-> e.m, save |-> e.save, words |-> e.words, pct |-> e.pct, terms |-> e.terms = "T", kernels |-> e.kernels = "T", coupled |-> e.coupled = "T"]
V(e) == IF Stopped(e.bv, e.rot, e.oms, e.gam) THEN <<>> ELSE Valid(e.bv, e.rot, e.oms)
Ints(y) == [i \in DOMAIN y |-> RInt(y[i])]
Squares(bv) == [i \in DOMAIN bv |-> IF bv[i] < 0 THEN RInt(-bv[i] * bv[i]) ELSE RInt(bv[i] * bv[i])]
Set(s) == {s[i] : i \in DOMAIN s}
FigOf(e, f) == e.figs[CHOOSE i \in DOMAIN e.figs : e.figs[i].file = f]
\* the curves of the upper and the lower panel
WholeOk(e, g) == {c.y : c \in Set(g.upper)} = {Ints(e.y), Squares(e.bv)} /\ Len(g.upper) = 2 /\ g.lower = <<>>
MaskedOk(e, g, v) == /\ Len(g.upper) = 2 /\ {c.y : c \in Set(g.upper)} = {Ints(e.y), Squares(e.bv)}
                     /\ Len(g.lower) = 2 /\ {c.y : c \in Set(g.lower)} = {Ints(Adj(e.y, v)), Squares(e.bv)}
                     /\ Set(g.shadeup) = Shaded(v) /\ Set(g.shadelow) = Shaded(v)
TermsOk(e, g, v) == /\ Len(g.upper) = 4 /\ {<<c.tag, c.y>> : c \in Set(g.upper)} = {<<k, Ints(e.ts[k])>> : k \in 1..4}
                    /\ Len(g.lower) = 4 /\ {<<c.tag, c.y>> : c \in Set(g.lower)} = {<<k, Ints(Adj(e.ts[k], v))>> : k \in 1..4}
                    /\ Set(g.shadeup) = Shaded(v) /\ Set(g.shadelow) = Shaded(v)
                    \* every entry of the legend has the colour of its curves
                    /\ Set(g.legend) = {<<k, k>> : k \in 1..4}
OnMesh(e, g) == \A c \in Set(g.upper) \union Set(g.lower) : c.x = [i \in DOMAIN e.x |-> R(e.x[i], e.K)]
TotalOk(e, v) == LET cc == e.y[Len(e.y)]  ad == AdjTotal(e.y, v)  S(q) == RMul(RInt(q), R(cc, ad)) IN
    /\ e.told.eta = <<RInt(cc), RInt(ad)>> /\ e.told.taken = Ints(Taken(e.y, v))
    /\ e.told.hyper = <<e.hyper, IF SameModes(Run(e)) THEN "two" ELSE "three">> /\ e.told.hypereta = RInt(ad)
    /\ e.sol = <<"T", "T", e.hyper, "T">>
    /\ cc # 0 /\ ad # 0 => /\ e.told.amps = Ints(e.stat) \o [i \in 1..3 |-> S(e.stat[i])] /\ e.told.thr = <<RInt(e.crit), S(e.crit)>>
                           /\ e.told.flux = Ints(e.surf) \o [i \in 1..3 |-> S(e.surf[i])]
                           /\ e.told.fthr = <<R(e.surf[1] * e.crit, e.stat[1]), RMul(R(e.surf[1] * e.crit, e.stat[1]), R(cc, ad))>>
PartsOk(e, v) == /\ Len(e.told.parts) = 4
                 /\ \A k \in 1..4 : e.told.parts[k] = [nr |-> k, cc |-> RInt(e.ts[k][Len(e.ts[k])]), ad |-> RInt(AdjTotal(e.ts[k], v)), taken |-> Ints(Taken(e.ts[k], v))]
RanOk(e) == \E v \in {V(e)} : \E f \in {Finally(Begun, Run(e), v)} :
    /\ e.nfiles = Cardinality(f.files) /\ {g.file : g \in Set(e.figs)} = f.files
    /\ Set(e.made) = f.kernels /\ Len(e.made) = Cardinality(f.kernels) /\ e.shown = f.shown
    /\ IF f.stage = "stopped" THEN e.err \notin {"", "SystemExit"} /\ e.told.any = "F"
       ELSE /\ e.err \in {"", "SystemExit"}
            /\ \A g \in Set(e.figs) : OnMesh(e, g)
            /\ WholeOk(e, FigOf(e, Whole(Run(e)))) /\ MaskedOk(e, FigOf(e, Masked(Run(e))), v)
            /\ TotalOk(e, v)
            /\ IF "terms" \in f.told THEN TermsOk(e, FigOf(e, ByTerm(Run(e))), v) /\ PartsOk(e, v) ELSE e.told.parts = <<>>
TStep == /\ \/ At("begin")
            \/ At("ran") /\ RanOk(E)
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject
         \/ Finish
TSpec == TInit /\ [][TNext]_l
==================================================================================
