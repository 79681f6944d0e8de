-------------------------------- MODULE MCCombos --------------------------------
EXTENDS Combos, TLC, Json, IOUtils
CONSTANTS Labels, MaxA, MaxB
\* repetition-free sequences: every order in which a collection may be supplied
Orders(S, n) == {s \in UNION {[1..k -> S] : k \in 0..n} : \A i, j \in DOMAIN s : i # j => s[i] # s[j]}
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
InA == Orders(Labels, MaxA)
InB == Orders(Labels, MaxB)
Inputs == { <<"sym", a, b, d>> : a \in InA, b \in InB, d \in BOOLEAN }
          \union { <<"single", a, <<>>, FALSE>> : a \in InA }
          \union { <<"cart", a, b, FALSE>> : a \in InA, b \in InB }
\* listing orders are explored for sorted collections only; all orders are replayed
Init == /\ \E i \in Inputs :
             /\ (i[2] = Sorted(ToSet(i[2])) /\ i[3] = Sorted(ToSet(i[3])))
             /\ kind = i[1] /\ A = i[2] /\ B = i[3] /\ diag = i[4]
        /\ listed = <<>> /\ phase = "listing"
Next == \/ \E x, y \in SA \union SB : Emit(x, y)
        \/ Done
Spec == Init /\ [][Next]_cvars
View == <<kind, A, B, diag, ToSet(listed), phase>>
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq({[kind |-> i[1], a |-> i[2], b |-> i[3], diag |-> i[4]] : i \in Inputs}))
=================================================================================
