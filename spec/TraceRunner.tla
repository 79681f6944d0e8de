-------------------------------- MODULE TraceRunner -----------------------------
EXTENDS Runner, Conf
TInit == pc = "done" /\ rin = <<>> /\ started = <<>> /\ saved = 0 /\ l = 1
Given(e) == {<<e.args[i].key, e.args[i].val>> : i \in DOMAIN e.args}
TStep == /\ \/ At("begin") /\ Begin([argc |-> E.argc, switch |-> E.switch, cands |-> E.cands, fs |-> ToSet(E.fs), based |-> E.based, doc |-> E.doc, save |-> E.save])
            \/ At("construct") /\ Construct(E.kind) /\ Given(E) = SolverArgs(rin) /\ E.tuple /\ E.binds
            \/ At("solve") /\ E.kind = Kind(rin) /\ Solve
            \/ At("saver") /\ Prepare /\ Given(E) = SaverArgs(rin) /\ E.same
            \/ At("save") /\ Save
            \/ At("end") /\ E.err = "" /\ Finished
            \/ At("end") /\ E.err # "" /\ Stop(E.err)
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ UNCHANGED run
         \/ Finish /\ UNCHANGED run
TSpec == TInit /\ [][TNext]_<<run, l>>
=================================================================================
