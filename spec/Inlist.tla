---------------------------------- MODULE Inlist --------------------------------
(* Reading a TOML inlist and looking values up in it.                            *)
(* A document is a sequence of nodes [k, t, v, b, c]: key, kind ("leaf", "table" *)
(* or "null"), canonical text of a leaf value, its truth value, and the children *)
(* of a table.  Arrays are leaves: they are taken verbatim.                      *)
EXTENDS Integers, Sequences, FiniteSets
Null == [k |-> "", t |-> "null", v |-> "", b |-> FALSE, c |-> <<>>]
RECURSIVE Norm(_)
Norm(n) == IF n.t # "table" THEN n
           ELSE IF n.c = <<>> THEN [k |-> n.k, t |-> "null", v |-> "", b |-> FALSE, c |-> <<>>]
           ELSE [n EXCEPT !.c = [i \in DOMAIN n.c |-> Norm(n.c[i])]]
Read(doc) == [i \in DOMAIN doc |-> Norm(doc[i])]
Has1(doc, k) == \E i \in DOMAIN doc : doc[i].k = k
Get1(doc, k) == LET i == CHOOSE j \in DOMAIN doc : doc[j].k = k IN [doc[i] EXCEPT !.k = ""]
RECURSIVE Lookup(_, _)
Lookup(doc, path) ==
  IF path = <<>> \/ ~Has1(doc, path[1]) THEN Null
  ELSE IF Len(path) = 1 THEN Get1(doc, path[1])
  ELSE LET n == Get1(doc, path[1]) IN IF n.t = "table" THEN Lookup(n.c, Tail(path)) ELSE Null
Truth(n) == n.t # "null" /\ n.b
Bool(x) == [k |-> "", t |-> "leaf", v |-> IF x THEN "bool:true" ELSE "bool:false", b |-> x, c |-> <<>>]
\* one requested value, negated or not
Value(doc, path, neg) == IF neg THEN Bool(~Truth(Lookup(doc, path))) ELSE Lookup(doc, path)
\* requested entries [key, path, neg] in order; a key asked for twice keeps its first place and its last value
RECURSIVE Dedup(_, _)
Dedup(ks, seen) == IF ks = <<>> THEN <<>>
                   ELSE IF ks[1] \in seen THEN Dedup(Tail(ks), seen)
                   ELSE <<ks[1]>> \o Dedup(Tail(ks), seen \cup {ks[1]})
Keys(req) == Dedup([i \in DOMAIN req |-> req[i].key], {})
LastOf(req, k) == CHOOSE i \in DOMAIN req : req[i].key = k /\ \A j \in DOMAIN req : req[j].key = k => j <= i
ReadDict(doc, req) == [n \in DOMAIN Keys(req) |-> LET e == req[LastOf(req, Keys(req)[n])] IN [key |-> e.key, val |-> Value(doc, e.path, e.neg)]]
ReadList(doc, req) == [n \in DOMAIN req |-> Value(doc, req[n].path, req[n].neg)]
RECURSIVE NoEmpty(_)
NoEmpty(doc) == \A i \in DOMAIN doc : doc[i].t # "table" \/ (doc[i].c # <<>> /\ NoEmpty(doc[i].c))
=================================================================================
