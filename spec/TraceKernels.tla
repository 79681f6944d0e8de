------------------------------- MODULE TraceKernels -----------------------------
(* Recorded from the profile program: every kernel figure it saves, panel by      *)
(* panel: what the labels say and what is drawn.  A world of integer functions.   *)
(* KernelLabels checks each curve against its label (K01), KernelCover that the   *)
(* curves of a term are its kernels (K02).                                        *)
EXTENDS Kernels, Conf
VARIABLES w, shown, files
None == [k \in 1..4 |-> [angular |-> {}, radial |-> {}]]
TInit == w = 0 /\ shown = None /\ files = {} /\ l = 1
W == Trace[w]
Known(c, S) == \A m \in 1..3 : c.names[m] \in S
Angs == {"hr", "ht", "hp", "qr", "qt", "qp", "mr", "tp", "pp"}
Rads == {"z1", "z2", "d1", "d2", "dv"}
Bgs == {"p", "g", "g2", "dg", "rho", "r", "r2", "r3", "f1", "f2", "f3"}
AngularCurve(c) == /\ c.bg = <<>> /\ ~c.scaled /\ Known(c, Angs)
                   /\ c.x = W.mu
                   /\ c.y = [j \in 1..Len(W.mu) |-> AngularAt(W, c, j)]
\* all curves of a panel with the same background and functions are drawn to one scale,
\* a simple number (the multiplicity of the product, which labels leave out)
Scale(c) == UNION {LET v == RadialAt(W, c, i) IN IF v[1] = 0 THEN IF c.y[i] = RInt(0) THEN {} ELSE {RInt(0)} ELSE {RDiv(c.y[i], v)} : i \in 1..Len(W.r)}
Simple == UNION {{R(c, 2), R(-c, 2)} : c \in {1, 2, 4, 8}}
Alike(c, d) == {c.bg[i] : i \in 1..Len(c.bg)} = {d.bg[i] : i \in 1..Len(d.bg)} /\ \A v \in Rads : Cardinality({m \in 1..3 : c.names[m] = v}) = Cardinality({m \in 1..3 : d.names[m] = v})
RadialCurve(c, p) == /\ Known(c, Rads) /\ \A i \in 1..Len(c.bg) : c.bg[i] \in Bgs
                     /\ c.scaled /\ ~c.mu /\ ~c.sin /\ c.fac = <<1, 1>>
                     /\ c.x = W.x /\ Len(c.y) = Len(W.x)
                     /\ LET s == UNION {Scale(p[i]) : i \in {i \in 1..Len(p) : Alike(p[i], c)}} IN Cardinality(s) <= 1 /\ s \subseteq Simple
PanelOk(e) == /\ e.kind \in {"angular", "radial"} /\ e.k \in 1..4 /\ e.ylab \in {0, e.k}
              /\ Len(e.curves) > 0
              /\ \A i \in 1..Len(e.curves) : IF e.kind = "angular" THEN AngularCurve(e.curves[i]) ELSE RadialCurve(e.curves[i], e.curves)
\* the domain where the traditional approximation holds is shaded
ShadeOk(e) == {<<z[1], z[2]>> : z \in {e.runs[i] : i \in 1..Len(e.runs)}} = IF e.kind = "radial" THEN Shaded(W.valid) ELSE {}
FileOk(e) == e.name \notin files /\ e.panels > 0
ShownIn(e) == IF e.kind = "angular" THEN {[names |-> e.curves[i].names, sin |-> e.curves[i].sin] : i \in 1..Len(e.curves)}
              ELSE {[names |-> e.curves[i].names, bg |-> {e.curves[i].bg[j] : j \in 1..Len(e.curves[i].bg)}] : i \in 1..Len(e.curves)}
CoverOk == \A k \in 1..4 : shown[k].angular = AngularAll[k] /\ shown[k].radial = RadialAll[k]
Shows(e) == IF e.kind \in {"angular", "radial"} /\ e.k \in 1..4 THEN [shown EXCEPT ![e.k][e.kind] = @ \union ShownIn(e)] ELSE shown
TStep == /\ \/ At("begin") /\ w' = l /\ shown' = None /\ files' = {}
            \/ At("figure") /\ (E.check = "labels" => FileOk(E)) /\ files' = files \union {E.name} /\ UNCHANGED <<w, shown>>
            \/ At("panel") /\ (E.check = "labels" => PanelOk(E) /\ ShadeOk(E)) /\ shown' = Shows(E) /\ UNCHANGED <<w, files>>
            \/ At("done") /\ E.err = "" /\ (E.check = "cover" => CoverOk) /\ UNCHANGED <<w, shown, files>>
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ UNCHANGED <<w, shown, files>>
         \/ Finish /\ UNCHANGED <<w, shown, files>>
TSpec == TInit /\ [][TNext]_<<w, shown, files, l>>
=================================================================================
