------------------------------- MODULE TraceModels ------------------------------
EXTENDS Models, Conf
TInit == l = 1
\* every name follows the convention, then the modes get their own files or the run stops
ModeOk(e) == /\ \A i \in DOMAIN e.files : Clear(e.files[i].name)
             /\ \E f \in {Final(Begun, e.files, e.modes, e.sub)} : e.stop = (IF f.stop THEN "T" ELSE "F") /\ (~f.stop => e.got = f.got)
StructOk(e) == \E c \in {Structures(e.files, e.suffix, e.sub, e.mesa = "T")} :
                  IF Cardinality(c) = 1 THEN e.stop = "F" /\ {e.got[i] : i \in DOMAIN e.got} = c ELSE e.stop = "T"
InferOk(e) == \E c \in {Inferred(e.dirs, e.word)} : IF Cardinality(c) = 1 THEN {e.got} = c ELSE e.got = 0
TStep == /\ \/ At("begin")
            \/ At("modes") /\ ModeOk(E)
            \/ At("structure") /\ StructOk(E)
            \/ At("infer") /\ InferOk(E)
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject
         \/ Finish
TSpec == TInit /\ [][TNext]_l
=================================================================================
