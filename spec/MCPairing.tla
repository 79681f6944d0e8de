------------------------------- MODULE MCPairing --------------------------------
EXTENDS Pairing, Json, IOUtils, SequencesExt
CONSTANTS N, Lows
\* the reference functions, written from their definitions on 0-based pairs
Cantor(x, y) == ((x + y) * (x + y + 1)) \div 2 + y
Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a < b THEN b ELSE a
SymPair(x, y) == Lesser(x, y) + 1 + ((Greater(x, y) + 1) * Greater(x, y)) \div 2
Xie(x, y) == LET s == x + y + 1 IN (s * s - (s % 2)) \div 4 + Lesser(x, y) + 1
F(fn, q) == CASE fn = "cantor" -> Cantor(q[1], q[2]) [] fn = "symmetric" -> SymPair(q[1], q[2]) [] fn = "xie" -> Xie(q[1], q[2])
VARIABLES fn, todo
Init == /\ fn \in {"cantor", "symmetric", "xie"} /\ sym = (fn # "cantor") /\ dict = <<>>
        /\ todo = SetToSeq((0..N) \X (0..N))
Next == /\ todo # <<>> /\ Encode(Head(todo), F(fn, Head(todo)))
        /\ todo' = Tail(todo) /\ UNCHANGED fn
Spec == Init /\ [][Next]_<<pvars, fn, todo>>
\* every reference code is acceptable to the dictionary: the run never blocks
NeverBlocked == todo # <<>> => ENABLED Encode(Head(todo), F(fn, Head(todo)))
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq({[fn |-> f, lo |-> w, n |-> N, form |-> g] :
   f \in {"cantor", "symmetric", "xie"}, w \in {x - 20 : x \in Lows}, g \in {"tuple", "array"}}))
=================================================================================
