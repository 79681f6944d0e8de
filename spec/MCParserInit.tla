------------------------------- MODULE MCParserInit -----------------------------
EXTENDS ParserInit, TLC, Json, IOUtils, SequencesExt
CONSTANTS Args
VARIABLES call, fs
Given == {"none", "str", "other"}
Calls == {c \in [path : {"none", "path", "other"}, found : BOOLEAN, full : {"F"}, base : Given, name : Given, second : {"F", "S"},
          args : Args, noinlist : BOOLEAN] : c.found => c.path = "path"}
Init == call \in Calls /\ fs \in SUBSET {"F", "S"}
Next == UNCHANGED <<call, fs>>
Spec == Init /\ [][Next]_<<call, fs>>
O == Outcome(call, fs)
ReadyOnlyWithAForm == O.kind = "ready" => Form1(call) \/ Form2(call)
RefusedIffNoForm == O.kind = "refused" <=> ~Form1(call) /\ ~Form2(call)
RefusalGivesReasons == O.kind = "refused" => O.reasons >= 2
ReadyReadsExisting == O.kind = "ready" /\ call.args = "" /\ ~call.noinlist => O.file \in fs
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq({[c |-> c, fs |-> f] : c \in Calls, f \in SUBSET {"F", "S"}}))
=================================================================================
