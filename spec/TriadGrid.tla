-------------------------------- MODULE TriadGrid -------------------------------
(* Enumeration of the mode triads requested by radial-order ranges: parents in   *)
(* ascending order (slowest), then every unordered daughter pair once.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
VARIABLES p, d1, d2, cur, seen, phase   \* ranges <<lo, hi>>; d2 = <<>> when absent
gvars == <<p, d1, d2, cur, seen, phase>>
Rng(r) == IF r = <<>> THEN {} ELSE r[1]..r[2]
Two == d2 # <<>>
PairOk(x, y) == IF Two THEN \/ x \in Rng(d1) /\ y \in Rng(d2)
                            \/ y \in Rng(d1) /\ x \in Rng(d2)
                ELSE x \in Rng(d1) /\ y \in Rng(d1) /\ x < y
Start(a, b, c) == /\ p' = a /\ d1' = b /\ d2' = c /\ cur' = a[1] /\ seen' = {} /\ phase' = "run"
AllSeen == \A x, y \in Rng(d1) \union Rng(d2) : PairOk(x, y) => {x, y} \in seen
Triad(n1, x, y) ==
  /\ phase = "run" /\ n1 \in Rng(p) /\ PairOk(x, y)
  /\ \/ n1 = cur /\ {x, y} \notin seen /\ seen' = seen \union {{x, y}} /\ cur' = cur
     \/ n1 = cur + 1 /\ AllSeen /\ seen' = {{x, y}} /\ cur' = n1
  /\ UNCHANGED <<p, d1, d2, phase>>
Complete == cur > p[2] \/ (cur = p[2] /\ AllSeen) \/ ~\E x, y \in Rng(d1) \union Rng(d2) : PairOk(x, y)
Finished == phase = "run" /\ Complete /\ phase' = "done" /\ UNCHANGED <<p, d1, d2, cur, seen>>
Abs(x) == IF x < 0 THEN -x ELSE x
Mean3(n1, x, y) == n1 + x + y        \* three times the mean radial order
Wu(n1, x, y) == n1 - Abs(x - y)
NPairs == LET U == Rng(d1) \union Rng(d2)
          IN Cardinality({{x, y} : <<x, y>> \in {q \in U \X U : PairOk(q[1], q[2])}})
NTriads == Cardinality(Rng(p)) * NPairs
=================================================================================
