---------------------------------- MODULE Conf ----------------------------------
(* Common part of every trace specification: the recorded events, the position  *)
(* in them, and how a rejected event is reported before skipping to the next    *)
(* scenario.  Field nx of an event is the position of the next scenario.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, FiniteSetsExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
E == Trace[l]
Has == l <= Len(Trace)
At(name) == l <= Len(Trace) /\ Trace[l].ev = name
Reject == /\ PrintT(<<"MISMATCH", l>>)
          /\ l' = Trace[l].nx
Finish == l = Len(Trace) + 1 /\ PrintT("TRACE_END") /\ l' = l + 1
=================================================================================
