------------------------------ MODULE TraceReports -------------------------------
EXTENDS Reports, Conf
TInit == pc = "done" /\ rin = <<>> /\ told = {} /\ l = 1
Given(e) == {<<e.args[i].key, e.args[i].val>> : i \in DOMAIN e.args}
TStep == /\ \/ At("begin") /\ Begin([kind |-> E.kind, argc |-> E.argc, cands |-> E.cands, fs |-> ToSet(E.fs), based |-> E.based, doc |-> E.doc])
            \/ At("construct") /\ E.kind = rin.kind /\ Construct /\ Given(E) = Args(rin)
            \/ At("call") /\ E.what = "generate_plots" /\ Plot
            \/ At("call") /\ E.what = "show" /\ Show
            \/ At("call") /\ Tell(E.what)
            \/ At("end") /\ E.err = "" /\ Finished
            \/ At("end") /\ E.err # "" /\ Stop(E.err)
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject /\ UNCHANGED rep
         \/ Finish /\ UNCHANGED rep
TSpec == TInit /\ [][TNext]_<<rep, l>>
=================================================================================
