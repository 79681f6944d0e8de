------------------------------ MODULE TraceAdjusted -----------------------------
(* Recorded from the profile program: the accumulated coupling coefficient (one  *)
(* curve or one for each of its terms), its zones, and what it makes of them.    *)
EXTENDS Adjusted, Rational, Conf
VARIABLE seen
TInit == seen = 0 /\ l = 1
CurveOk(y, v, c) == /\ c.cc = RInt(y[Len(y)])
                    /\ c.adj = RInt(AdjTotal(y, v))
                    /\ c.plain = [i \in 1..Len(y) |-> RInt(y[i])]
                    /\ c.shown = [i \in 1..Len(y) |-> RInt(Adj(y, v)[i])]
                    /\ c.taken = [i \in 1..Len(Taken(y, v)) |-> RInt(Taken(y, v)[i])]
AdjustedOk(e) ==
  LET v == Valid(e.bv, e.rot, e.oms)
  IN IF Stopped(e.bv, e.rot, e.oms, e.gam) THEN e.err = "PhysicsError"
     ELSE /\ e.err = ""
          /\ Len(e.curves) = Len(e.ys)
          /\ \A k \in 1..Len(e.ys) : CurveOk(e.ys[k], v, e.curves[k])
\* amplitudes and fluxes go with one over the coefficient; printed in parts per million
PrintedOk(e) ==
  LET v == Valid(e.bv, e.rot, e.oms)
      cc == e.y[Len(e.y)]
      ad == AdjTotal(e.y, v)
      S(x) == RMul(RInt(x), R(cc, ad))
  IN cc # 0 /\ ad # 0 =>
     /\ e.ratio = R(ad, cc)
     /\ e.eta = <<RInt(cc), RInt(ad)>>
     /\ e.amps = [i \in 1..3 |-> RInt(e.stat[i])] /\ e.ampsadj = [i \in 1..3 |-> S(e.stat[i])]
     /\ e.thr = RInt(e.crit) /\ e.thradj = S(e.crit)
     /\ e.flux = [i \in 1..3 |-> RInt(e.surf[i])] /\ e.fluxadj = [i \in 1..3 |-> S(e.surf[i])]
     /\ e.fthr = R(e.surf[1] * e.crit, e.stat[1]) /\ e.fthradj = RMul(R(e.surf[1] * e.crit, e.stat[1]), R(cc, ad))
TStep == /\ \/ At("begin") /\ seen' = 0
            \/ At("adjusted") /\ AdjustedOk(E) /\ seen' = 1
            \/ At("printed") /\ seen = 1 /\ PrintedOk(E) /\ seen' = 2
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ UNCHANGED seen
         \/ Finish /\ UNCHANGED seen
TSpec == TInit /\ [][TNext]_<<seen, l>>
=================================================================================
