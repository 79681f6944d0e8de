------------------------------- MODULE TraceCombos ------------------------------
EXTENDS Combos, Conf
TInit == kind = "" /\ A = <<>> /\ B = <<>> /\ diag = FALSE /\ listed = <<>> /\ phase = "idle" /\ l = 1
TStep == /\ \/ At("begin") /\ Submit(E.kind, E.a, E.b, E.diag)
            \/ At("pair") /\ Len(E.p) = 2 /\ Emit(E.p[1], E.p[2])
            \/ At("done") /\ Done /\ E.card = Len(listed) /\ E.card = Count
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ UNCHANGED cvars
         \/ Finish /\ UNCHANGED cvars
TSpec == TInit /\ [][TNext]_<<cvars, l>>
=================================================================================
