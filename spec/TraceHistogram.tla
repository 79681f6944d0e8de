----------------------------- MODULE TraceHistogram -----------------------------
EXTENDS Histogram, Conf
TInit == l = 1
Rs(s) == [i \in DOMAIN s |-> RInt(s[i])]
Widths(e) == [i \in 1..(Len(e) - 1) |-> e[i + 1] - e[i]]
\* one value is one bin of unit width around it
OneOk(e, v) == e.none = FALSE /\ e.hist = <<RInt(1)>> /\ e.edges = <<R(2 * v - 1, 2), R(2 * v + 1, 2)>> /\ e.bw = <<RInt(e.own)>> /\ e.told = FALSE
NoneOk(e) == e.none = TRUE
\* one of the likeliest choices, shown as asked for
ChoiceOk(e, x, N) == /\ e.none = FALSE
                  /\ e.edges = Rs(x.e)
                  /\ e.hist = Shown(Kind(e.prob, e.dens), x.c, x.e, N)
                  /\ e.bw = (IF e.log THEN Rs(Widths(x.e)) ELSE <<RInt(x.e[2] - x.e[1])>>)
                  /\ e.told = e.tell
                  /\ (e.tell => e.a = <<x.a[1], x.a[2]>> /\ e.n = x.n)
OptOk(e) == \E v \in {Valued(e.d)} :
              CASE Len(v) = 0 -> NoneOk(e)
                [] Len(v) = 1 -> OneOk(e, v[1])
                [] OTHER -> IF e.log /\ e.neg THEN NoneOk(e)
                            ELSE \E x \in Best(Offers(e.log, e.d, e.al, e.nb)) : ChoiceOk(e, x, Len(v))
\* counts in given bins; all of the bins are shown
GivenOk(e) == IF Len(e.d) = 0 \/ e.neg THEN NoneOk(e)
              ELSE e.none = FALSE /\ e.hist = Shown(Kind(e.prob, e.dens), Counts(e.log, e.e, e.d), e.e, Len(e.d))
(* The figure of the sharpness: bins for all, with 2 to N bins, and the parts of  *)
(* those isolated and of the others in each bin.                                 *)
FigAlphas == <<<<1, 100>>, <<1, 10>>, <<1, 1>>, <<10, 1>>, <<100, 1>>>>
Part(d, e) == IF d = <<>> THEN <<>> ELSE Shown("part", Counts(TRUE, e, d), e, Len(d))
FigOk(e) == CASE Len(e.d) = 0 -> e.edges = <<>> /\ e.iso = <<>> /\ e.rest = <<>> /\ e.err = ""
              [] Len(e.d) = 1 -> e.edges = <<R(2 * e.d[1] - 1, 2), R(2 * e.d[1] + 1, 2)>> /\ e.bw = <<RInt(1)>>
                                 /\ e.iso = (IF e.di = <<>> THEN <<>> ELSE <<RInt(1)>>) /\ e.rest = (IF e.dr = <<>> THEN <<>> ELSE <<RInt(1)>>)
              [] OTHER -> \E x \in Best(Offers(TRUE, e.d, FigAlphas, [j \in 1..(Len(e.d) - 1) |-> j + 1])) :
                             e.edges = Rs(x.e) /\ e.bw = Rs(Widths(x.e)) /\ e.iso = Part(e.di, x.e) /\ e.rest = Part(e.dr, x.e)
TStep == /\ \/ At("begin")
            \/ At("opt") /\ OptOk(E)
            \/ At("given") /\ GivenOk(E)
            \/ At("fig") /\ FigOk(E)
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject
         \/ Finish
TSpec == TInit /\ [][TNext]_l
=================================================================================
