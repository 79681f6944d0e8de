----------------------------- MODULE TracePathResolve ---------------------------
EXTENDS PathResolve, Conf
VARIABLES cands, fs
TInit == cands = <<>> /\ fs = {} /\ l = 1
Same == UNCHANGED <<cands, fs>>
TStep == /\ \/ At("begin") /\ cands' = E.cands /\ fs' = ToSet(E.fs)
            \/ At("edit") /\ fs' = ToSet(E.fs) /\ UNCHANGED cands
            \/ At("resolved") /\ FirstExisting(cands, fs) # "none" /\ E.path = FirstExisting(cands, fs) /\ Same
            \/ At("missing") /\ FirstExisting(cands, fs) = "none" /\ E.err = "FileNotFoundError" /\ Same
            \* a run script asked with its command line
            \/ At("script") /\ Request(E.script, E.argc, E.switch) # "error" /\ E.err = "" /\ E.path = FirstExisting(E.cands, ToSet(E.fs)) /\ E.path # "none" /\ Same
            \/ At("script") /\ Request(E.script, E.argc, E.switch) # "error" /\ E.err = "FileNotFoundError" /\ FirstExisting(E.cands, ToSet(E.fs)) = "none" /\ Same
            \/ At("script") /\ Request(E.script, E.argc, E.switch) = "error" /\ E.err = "RuntimeError" /\ Same
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ Same
         \/ Finish /\ Same
TSpec == TInit /\ [][TNext]_<<cands, fs, l>>
=================================================================================
