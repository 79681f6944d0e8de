------------------------------- MODULE TraceFolders ------------------------------
EXTENDS Folders, Conf
\* info: the settings;  run, disk, spell: of the scenario;  on: still running
VARIABLES info, on, w
TInit == l = 1 /\ info = Empty /\ on = FALSE /\ w = 0
\* position of the begin event of this scenario: run, disk and spelling are looked up there
Run == [poly |-> Trace[w].poly = "T", base |-> Trace[w].base, adpath |-> Trace[w].adpath, nadpath |-> Trace[w].nadpath, pct |-> Trace[w].pct]
Table(s) == [x \in {s[i].k : i \in DOMAIN s} |-> s[CHOOSE i \in DOMAIN s : s[i].k = x].v]
Map(s) == {<<s[i].k, s[i].v>> : i \in DOMAIN s}
Graph(f) == {<<x, f[x]>> : x \in DOMAIN f}
Expect(e) == IF e.way = "toml" THEN [err |-> "", info |-> Inlist(e.items)]
             ELSE IF e.missing = "T" THEN [err |-> "FileNotFoundError", info |-> Empty]
             ELSE IF Known(e.items) THEN [err |-> "", info |-> Lines(Empty, e.items, 1)] ELSE [err |-> "SystemExit", info |-> Empty]
InfoOk(e, x) == e.err = x.err /\ (x.err = "" => /\ Map(e.full) = Graph(x.info) /\ Map(e.load) = Graph(Only(x.info, ForLoading)) /\ Map(e.cmp) = Graph(Only(x.info, ForCompare))
                                                /\ Len(e.full) = Cardinality(DOMAIN x.info))
LoadOk(e, x) == IF x.stop THEN e.err \in {"SystemExit", "FileNotFoundError"} ELSE e.err = "" /\ e.parts = x.parts
TStep == /\ \/ At("begin") /\ on' = TRUE /\ info' = Empty /\ w' = l
               \* every name follows the convention
               /\ \A nm \in UNION {{E.disk[i].v[j].name : j \in DOMAIN E.disk[i].v} : i \in DOMAIN E.disk} : Clear(nm)
            \/ At("info") /\ \E x \in {Expect(E)} : InfoOk(E, x) /\ info' = x.info /\ on' = (x.err = "") /\ UNCHANGED w
            \* the solver starts exactly when the settings can be read
            \/ At("start") /\ (E.err = "") = on /\ UNCHANGED <<info, on, w>>
            \/ At("load") /\ on /\ \E x \in {Loading(Run, info, Table(Trace[w].disk), Table(Trace[w].spell), E.modes)} : LoadOk(E, x) /\ on' = ~x.stop
               /\ UNCHANGED <<info, w>>
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ UNCHANGED <<info, on, w>>
         \/ Finish /\ UNCHANGED <<info, on, w>>
TSpec == TInit /\ [][TNext]_<<l, info, on, w>>
==================================================================================
