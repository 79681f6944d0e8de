------------------------------- MODULE TraceUserPoll ----------------------------
EXTENDS UserPoll, Conf
TInit == pn = 0 /\ pc = "done" /\ cand = -1 /\ ret = -1 /\ l = 1
TStep == /\ \/ At("begin") /\ Start(E.n)
            \/ At("typed") /\ Type(E)
            \/ At("confirmed") /\ Confirm(E.yes)
            \/ At("returned") /\ pc = "done" /\ E.val = ret /\ UNCHANGED poll
            \/ At("eof") /\ pc = "ask" /\ UNCHANGED poll       \* nothing left to type
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ UNCHANGED poll
         \/ Finish /\ UNCHANGED poll
TSpec == TInit /\ [][TNext]_<<poll, l>>
=================================================================================
