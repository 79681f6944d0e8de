------------------------------- MODULE TraceInlist ------------------------------
EXTENDS Inlist, Conf
VARIABLE doc
TInit == doc = <<>> /\ l = 1
TStep == /\ \/ At("begin") /\ doc' = E.doc
            \/ At("edit") /\ doc' = E.doc
            \/ At("read") /\ E.doc = Read(doc) /\ UNCHANGED doc
            \/ At("dict") /\ E.res = ReadDict(Read(doc), E.req) /\ UNCHANGED doc
            \/ At("list") /\ E.res = ReadList(Read(doc), E.req) /\ UNCHANGED doc
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ UNCHANGED doc
         \/ Finish /\ UNCHANGED doc
TSpec == TInit /\ [][TNext]_<<doc, l>>
=================================================================================
