------------------------------- MODULE TraceStore -------------------------------
EXTENDS Store, Conf
TInit == StoreInit /\ l = 1
Version(e) == [id |-> e.id, names |-> ToSet(e.names)]
Names(s) == {s[i][1] : i \in DOMAIN s}
\* the file at p as observed: per dataset the identities of the saves whose values it holds
FileAt(p, e) == /\ Exists(p) /\ Names(e.sets) = DOMAIN disk[p].sets
                /\ \A i \in DOMAIN e.sets : disk[p].sets[e.sets[i][1]] \in ToSet(e.sets[i][2])
                /\ disk[p].att \in ToSet(e.att)
TStep == /\ \/ At("begin") /\ disk' = <<>>
            \/ At("save") /\ Save(E.p, E.mode, Version(E)) /\ E.ok = CanSave(E.p, E.mode)
            \/ At("store") /\ Save(Path(E.c), "w", Version(E)) /\ E.ok
            \/ At("file") /\ FileAt(E.p, E) /\ UNCHANGED disk
            \/ At("listing") /\ ToSet(E.paths) = DOMAIN disk /\ UNCHANGED disk
            \* the loading side finds what was stored under the same configuration
            \/ At("find") /\ E.path = Path(E.c) /\ Exists(E.path) /\ UNCHANGED disk
            \* names generated by the loading side
            \/ At("names") /\ Len(E.paths) = Len(E.cs) /\ (\A i \in DOMAIN E.cs : E.paths[i] = Loaded(E.cs[i])) /\ UNCHANGED disk
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ UNCHANGED disk
         \/ Finish /\ UNCHANGED disk
TSpec == TInit /\ [][TNext]_<<disk, l>>
=================================================================================
