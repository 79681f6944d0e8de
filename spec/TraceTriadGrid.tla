----------------------------- MODULE TraceTriadGrid -----------------------------
EXTENDS TriadGrid, Conf
TInit == p = <<0, 0>> /\ d1 = <<>> /\ d2 = <<>> /\ cur = 0 /\ seen = {} /\ phase = "idle" /\ l = 1
TStep == /\ \/ At("begin") /\ Start(E.p, E.d1, E.d2)
            \/ /\ At("triad") /\ Len(E.n) = 3 /\ Triad(E.n[1], E.n[2], E.n[3])
               /\ E.mean3 = Mean3(E.n[1], E.n[2], E.n[3])
               /\ E.wu = Wu(E.n[1], E.n[2], E.n[3])
            \/ At("done") /\ Finished /\ E.count = NTriads
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ UNCHANGED gvars
         \/ Finish /\ UNCHANGED gvars
TSpec == TInit /\ [][TNext]_<<gvars, l>>
=================================================================================
