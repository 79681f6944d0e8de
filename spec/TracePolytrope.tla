------------------------------ MODULE TracePolytrope ----------------------------
EXTENDS Polytrope, Conf
TInit == l = 1
\* every profile of the structure file, layer by layer, and nothing left out
StarOk(e) == \E st \in {Star(e.c)} : /\ Len(e.lay) = Len(st)
                                     /\ \A i \in DOMAIN st : \A q \in DOMAIN st[i] : q \in DOMAIN e.lay[i] /\ e.lay[i][q] = st[i][q]
TStep == /\ \/ At("begin")
            \/ At("star") /\ StarOk(E)
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject
         \/ Finish
TSpec == TInit /\ [][TNext]_l
=================================================================================
