---------------------------- MODULE TraceCustomInlist ---------------------------
EXTENDS CustomInlist, Conf
VARIABLES d, u
TInit == d = <<>> /\ u = <<>> /\ l = 1
TStep == /\ \/ At("begin") /\ d' = E.d /\ u' = E.u
            \/ At("edit") /\ d' = E.d /\ u' = E.u
            \/ At("read") /\ Len(E.res) = Cardinality(ToSet(E.res)) /\ ToSet(E.res) = Pairs(Merged(d, u)) /\ UNCHANGED <<d, u>>
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ UNCHANGED <<d, u>>
         \/ Finish /\ UNCHANGED <<d, u>>
TSpec == TInit /\ [][TNext]_<<d, u, l>>
=================================================================================
