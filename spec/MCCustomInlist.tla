----------------------------- MODULE MCCustomInlist -----------------------------
EXTENDS CustomInlist, TLC, Json, IOUtils, SequencesExt
CONSTANTS Keys, Kinds, Len1
VARIABLES d, u, m, rest
Files == UNION {[1..n -> Keys \X Kinds] : n \in 0..Len1}
Init == d \in Files /\ u \in Files /\ m = <<>> /\ rest = d \o u
Next == /\ rest # <<>>
        /\ m' = [k \in DOMAIN m \cup {rest[1][1]} |-> IF k = rest[1][1] THEN rest[1][2] ELSE m[k]]
        /\ rest' = Tail(rest) /\ UNCHANGED <<d, u>>
Spec == Init /\ [][Next]_<<d, u, m, rest>>
EndIsMerged == rest = <<>> => IF KeysOf(d) \cup KeysOf(u) = {} THEN m = <<>> ELSE m = Merged(d, u)
UserWins == rest = <<>> => \A k \in KeysOf(u) : m[k] = LastVal(u, k)
DefaultsKept == rest = <<>> => \A k \in KeysOf(d) \ KeysOf(u) : m[k] = LastVal(d, k)
Distinct(f) == \A i, j \in DOMAIN f : f[i][1] = f[j][1] => i = j
OrderFree == rest = <<>> /\ Distinct(u) /\ Len(u) = 2 => Pairs(Merged(d, u)) = Pairs(Merged(d, <<u[2], u[1]>>))
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq({[d |-> x, u |-> y] : x \in Files, y \in Files}))
=================================================================================
