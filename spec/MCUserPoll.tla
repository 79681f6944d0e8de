-------------------------------- MODULE MCUserPoll ------------------------------
EXTENDS UserPoll, TLC, Json, IOUtils, FiniteSets, SequencesExt
CONSTANTS N, Depth
VARIABLES hist
Lines == {[num |-> TRUE, val |-> v] : v \in {-2, -1, 0, 1, N - 1, N, N + 3}} \cup {[num |-> FALSE, val |-> 0]}
Init == pn = N /\ pc = "ask" /\ cand = -1 /\ ret = -1 /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \/ \E x \in Lines : Type(x) /\ hist' = Append(hist, x)
           \/ \E y \in BOOLEAN : Confirm(y) /\ hist' = Append(hist, [num |-> y, val |-> -99])
Spec == Init /\ [][Next]_<<poll, hist>>
\* a user who eventually offers and confirms a number gets out; nobody else does
DoneMeansChosen == pc = "done" => \E i \in 1..(Len(hist) - 1) : Offered(N, hist[i]) /\ hist[i].val = ret /\ hist[i + 1] = [num |-> TRUE, val |-> -99]
Seqs == UNION {[1..k -> Lines] : k \in 0..2}
Vals == {"ask"}
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq({[n |-> n, lines |-> s, yes |-> y] : n \in {1, 2, 5}, s \in Seqs, y \in [1..2 -> BOOLEAN]}))
=================================================================================
