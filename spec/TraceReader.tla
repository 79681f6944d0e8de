------------------------------- MODULE TraceReader ------------------------------
EXTENDS Reader, Conf
TInit == l = 1
Got(out) == {[k |-> out[i].k, v |-> out[i].v] : i \in DOMAIN out}
Names(s) == {s[i] : i \in DOMAIN s}
TableOk(e) == IF e.suffix \in Understood THEN e.err = "" /\ Got(e.out) = ReadText(e.text, Names(e.known)) ELSE e.err = "SystemExit"
StoreOk(e) == IF e.suffix \in Understood THEN e.err = "" /\ Got(e.out) = ReadStore(e.items, Names(e.known)) ELSE e.err = "SystemExit"
TStep == /\ \/ At("begin")
            \/ At("table") /\ TableOk(E)
            \/ At("store") /\ StoreOk(E)
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject
         \/ Finish
TSpec == TInit /\ [][TNext]_l
=================================================================================
