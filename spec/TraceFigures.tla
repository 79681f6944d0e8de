------------------------------ MODULE TraceFigures -------------------------------
EXTENDS Figures, Conf
TInit == AnaInit /\ FreqInit /\ FigInit /\ l = 1
RECURSIVE Sel(_, _, _)
Sel(t, i, c) == IF i > Len(t) THEN <<>> ELSE (IF Sharp(t, i) = c THEN <<Million(R(DetOf(t[i]), t[i].g[2] + t[i].g[3]))>> ELSE <<>>) \o Sel(t, i + 1, c)
RECURSIVE SelAll(_, _)
SelAll(k, c) == IF k > Len(models) THEN <<>> ELSE Sel(Table(models[k]), 1, c) \o SelAll(k + 1, c)
ToRequest(r) == [r EXCEPT !.formats = {r.formats[i] : i \in DOMAIN r.formats}, !.ov = r.ov = "T", !.sh = r.sh = "T"]
\* what is seen in the overview: e.pts, points with class, mirrored or not, and place
Seen(e) == [i \in DOMAIN e.pts |-> [c |-> e.pts[i].c, dim |-> e.pts[i].dim = "T", x |-> e.pts[i].x, y |-> e.pts[i].y]]
OverviewOk(e) ==
  /\ Counted(Seen(e)) = Counted(Points(models))
  /\ e.legend = <<"stable", "ae", "valid">>     \* every class once
  /\ e.colours = "T"                            \* one colour per class
  /\ e.twin = "T"                               \* the upper axis has the same limits and shows the period
SharpnessOk(e) ==
  \E a \in {SelAll(1, "iso")}, b \in {SelAll(1, "not")} :
     /\ a # <<>> \/ b # <<>> => e.err = ""
     \* the label states the number of triads of all models
     /\ e.iso.shown = "T" => e.iso.num = Len(a) /\ (a = <<>> \/ BarsOk(e.iso.bars, a))
     /\ e.not.shown = "T" => e.not.num = Len(b) /\ (b = <<>> \/ BarsOk(e.not.bars, b))
     \* with two or more values there is a histogram of each kind that has any
     /\ Len(a) + Len(b) > 1 => (a # <<>> => e.iso.shown = "T") /\ (b # <<>> => e.not.shown = "T")
     /\ e.iso.shown = "T" /\ e.not.shown = "T" => [i \in DOMAIN e.iso.bars |-> <<e.iso.bars[i].lo, e.iso.bars[i].hi>>] = [i \in DOMAIN e.not.bars |-> <<e.not.bars[i].lo, e.not.bars[i].hi>>]
SaveOk(e) == e.path = File(ask, e.k, e.format) /\ e.dpi = ask.dpi
Same == UNCHANGED models
TStep == /\ \/ At("begin") /\ Load(E.models) /\ Request(ToRequest(E.req))
            \/ At("overview") /\ Same /\ OverviewOk(E) /\ Draw("overview")
            \/ At("sharpness") /\ Same /\ SharpnessOk(E) /\ Draw("sharpness")
            \/ At("saved") /\ Same /\ SaveOk(E) /\ Save(E.k, E.format)
            \/ At("end") /\ Same /\ Complete /\ UNCHANGED fig
         /\ l' = l + 1 /\ UNCHANGED freq
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ Same /\ UNCHANGED <<fig, freq>>
         \/ Finish /\ Same /\ UNCHANGED <<fig, freq>>
TSpec == TInit /\ [][TNext]_<<models, fig, freq, l>>
=================================================================================
