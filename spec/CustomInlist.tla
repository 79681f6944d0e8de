------------------------------- MODULE CustomInlist -----------------------------
(* A custom-style inlist and its file of defaults: both are sequences of entries *)
(* <<key, value>>; reading is overwriting key by key, defaults first.            *)
EXTENDS Integers, Sequences, FiniteSets
KeysOf(f) == {f[i][1] : i \in DOMAIN f}
LastVal(f, k) == LET i == CHOOSE j \in DOMAIN f : f[j][1] = k /\ \A m \in DOMAIN f : f[m][1] = k => m <= j IN f[i][2]
Merged(d, u) == [k \in KeysOf(d) \cup KeysOf(u) |-> IF k \in KeysOf(u) THEN LastVal(u, k) ELSE LastVal(d, k)]
Pairs(m) == {<<k, m[k]>> : k \in DOMAIN m}
\* the same by reading entry after entry, as a fold over the two files
RECURSIVE Fold(_, _)
Fold(m, f) == IF f = <<>> THEN m
              ELSE Fold([k \in DOMAIN m \cup {f[1][1]} |-> IF k = f[1][1] THEN f[1][2] ELSE m[k]], Tail(f))
=================================================================================
