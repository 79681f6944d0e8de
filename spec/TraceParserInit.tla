------------------------------ MODULE TraceParserInit ---------------------------
EXTENDS ParserInit, Inlist, Conf
VARIABLES call, fs, doc
\* what the command line alone provides
Line(c) == <<[k |-> "debug", t |-> "leaf", v |-> "bool:false", b |-> FALSE, c |-> <<>>],
             [k |-> "inlist_name", t |-> "leaf", v |-> "str:" \o (IF c.args = "" THEN Target(c) ELSE c.args), b |-> TRUE, c |-> <<>>],
             [k |-> "no_inlist", t |-> "leaf", v |-> "bool:true", b |-> TRUE, c |-> <<>>],
             [k |-> "no_verbose", t |-> "leaf", v |-> "bool:false", b |-> FALSE, c |-> <<>>]>>
DocOf(e, f) == IF f = "command line" THEN Line(e.call) ELSE LET i == CHOOSE j \in DOMAIN e.docs : e.docs[j].file = f IN e.docs[i].doc
TInit == call = <<>> /\ fs = {} /\ doc = <<>> /\ l = 1
O == Outcome(call, fs)
Same == UNCHANGED <<call, fs, doc>>
TStep == /\ \/ At("begin") /\ call' = E.call /\ fs' = ToSet(E.fs) /\ doc' = (LET o == Outcome(E.call, ToSet(E.fs)) IN IF o.kind = "ready" THEN DocOf(E, o.file) ELSE <<>>)
            \/ At("init") /\ E.kind = O.kind /\ (O.kind = "refused" => E.reasons = O.reasons) /\ (O.kind = "ready" /\ ~call.noinlist => E.file = O.file) /\ Same
            \* what a ready parser hands out comes from the file it was started on
            \/ At("dict") /\ O.kind = "ready" /\ E.res = ReadDict(Read(doc), E.req) /\ Same
            \/ At("list") /\ O.kind = "ready" /\ E.res = ReadList(Read(doc), E.req) /\ Same
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ Same
         \/ Finish /\ Same
TSpec == TInit /\ [][TNext]_<<call, fs, doc, l>>
=================================================================================
