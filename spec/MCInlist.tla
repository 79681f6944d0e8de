--------------------------------- MODULE MCInlist -------------------------------
EXTENDS Inlist, TLC, Json, IOUtils, SequencesExt
CONSTANTS Depth, Kinds
Leaf(k, v) == [k |-> k, t |-> "leaf", v |-> v, b |-> v # "0", c |-> <<>>]
Table(k, c) == [k |-> k, t |-> "table", v |-> "", b |-> c # <<>>, c |-> c]
RECURSIVE Docs(_)
Nodes(k, sub) == {Leaf(k, v) : v \in Kinds} \cup {Table(k, c) : c \in sub}
Docs(d) == LET sub == IF d = 0 THEN {<<>>} ELSE Docs(d - 1)
           IN {<<>>} \cup {<<x>> : x \in Nodes("a", sub) \cup Nodes("b", sub)} \cup {<<x, y>> : x \in Nodes("a", sub), y \in Nodes("b", sub)}
VARIABLE doc
Init == doc \in Docs(Depth)
Next == UNCHANGED doc
Spec == Init /\ [][Next]_doc
Paths == UNION {[1..n -> {"a", "b"}] : n \in 1..4}
R == Read(doc)
NormIdempotent == Read(R) = R
NothingEmptyLeft == NoEmpty(R)
SameKeys == [i \in DOMAIN R |-> R[i].k] = [i \in DOMAIN doc |-> doc[i].k]
\* reading never changes what is found, except that empty tables become null
LookupPreserved == \A p \in Paths : LET a == Lookup(doc, p) b == Lookup(R, p)
                                    IN /\ a.t = "leaf" => b = a
                                       /\ a.t = "null" => b = Null
                                       /\ a.t = "table" => (IF a.c = <<>> THEN b = Null ELSE b.t = "table")
PrefixClosed == \A p \in Paths : Len(p) > 1 /\ Lookup(R, p) # Null => Lookup(R, SubSeq(p, 1, Len(p) - 1)).t = "table"
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq({[doc |-> d] : d \in Docs(Depth)}))
=================================================================================
