-------------------------------- MODULE TraceZones ------------------------------
EXTENDS Zones, Conf
VARIABLE seen
TInit == seen = 0 /\ l = 1
B(x) == IF x THEN "T" ELSE "F"
ZonesOk(e) ==
  LET v == Valid(e.bv, e.rot, e.oms)
  IN IF Stopped(e.bv, e.rot, e.oms, e.gam) THEN e.err = "PhysicsError"
     ELSE /\ e.err = ""
          /\ e.mask = [i \in 1..Len(v) |-> B(v[i])]
          /\ e.valid = ZeroBased(Runs(v, TRUE))
          /\ e.invalid = ZeroBased(Runs(v, FALSE))
          /\ e.borders = Borders(v)
          /\ e.fully = B(\A i \in 1..Len(v) : ~v[i])
TStep == /\ \/ At("begin") /\ seen' = 0
            \/ At("zones") /\ ZonesOk(E) /\ seen' = 1
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ UNCHANGED seen
         \/ Finish /\ UNCHANGED seen
TSpec == TInit /\ [][TNext]_<<seen, l>>
=================================================================================
