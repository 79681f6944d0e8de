--------------------------------- MODULE Pairing --------------------------------
(* A pairing function as a dictionary being filled: a code may be handed out for *)
(* one pair only (one unordered pair when symmetric) and must decode to it.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES sym, dict     \* dict: code -> pair
pvars == <<sym, dict>>
Same(a, b) == a = b \/ (sym /\ a = <<b[2], b[1]>>)
Begin(s) == sym' = s /\ dict' = <<>>
Encode(pr, c) ==
  /\ IF c \in DOMAIN dict THEN Same(dict[c], pr)
     ELSE \A k \in DOMAIN dict : ~Same(dict[k], pr)   \* and a pair has one code
  /\ dict' = (c :> pr) @@ dict
  /\ UNCHANGED sym
Decode(c, pr) == c \in DOMAIN dict /\ Same(dict[c], pr) /\ UNCHANGED pvars
Injective == \A c, d \in DOMAIN dict : c # d => ~Same(dict[c], dict[d])
=================================================================================
