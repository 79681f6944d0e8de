------------------------------ MODULE TracePairing ------------------------------
EXTENDS Pairing, Conf
TInit == sym = FALSE /\ dict = <<>> /\ l = 1
TStep == /\ \/ At("begin") /\ Begin(E.sym)
            \/ At("enc") /\ Len(E.p) = 2 /\ Encode(E.p, E.c)
            \/ At("dec") /\ Len(E.p) = 2 /\ Decode(E.c, E.p)
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ UNCHANGED pvars
         \/ Finish /\ UNCHANGED pvars
TSpec == TInit /\ [][TNext]_<<pvars, l>>
=================================================================================
