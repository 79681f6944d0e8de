--------------------------------- MODULE Combos ---------------------------------
(* Listing of the mode pairs of two label collections, one pair per step.        *)
(* kind: "sym" symmetric product, "single" single set, "cart" cartesian product. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

VARIABLES kind, A, B, diag, listed, phase
cvars == <<kind, A, B, diag, listed, phase>>

SA == ToSet(A)
SB == ToSet(B)
PosIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

\* may the pair <<x, y>> still be listed?
SymAdmissible(x, y) ==
  /\ <<x, y>> \notin ToSet(listed) /\ <<y, x>> \notin ToSet(listed)
  /\ \/ x \in SA /\ y \in SB
     \/ y \in SA /\ x \in SB
  /\ x = y => diag
SingleAdmissible(x, y) ==
  /\ x \in SA /\ y \in SA /\ PosIn(A, x) < PosIn(A, y)
  /\ <<x, y>> \notin ToSet(listed)
CartAdmissible(x, y) == x \in SA /\ y \in SB /\ <<x, y>> \notin ToSet(listed)
Admissible(x, y) == CASE kind = "sym" -> SymAdmissible(x, y)
                      [] kind = "single" -> SingleAdmissible(x, y)
                      [] kind = "cart" -> CartAdmissible(x, y)

Submit(k, a, b, d) == /\ kind' = k /\ A' = a /\ B' = b /\ diag' = d
                      /\ listed' = <<>> /\ phase' = "listing"
Emit(x, y) == /\ phase = "listing" /\ Admissible(x, y)
              /\ listed' = Append(listed, <<x, y>>)
              /\ UNCHANGED <<kind, A, B, diag, phase>>
Done == /\ phase = "listing"
        /\ \A x, y \in SA \union SB : ~Admissible(x, y)
        /\ phase' = "done"
        /\ UNCHANGED <<kind, A, B, diag, listed>>

\* ---- what must hold when the listing is complete
C2(n) == (n * (n - 1)) \div 2
Count == LET common == Cardinality(SA \cap SB)
         IN CASE kind = "sym" -> C2(Cardinality(SA \union SB)) - C2(Cardinality(SA) - common)
                                 - C2(Cardinality(SB) - common) + (IF diag THEN common ELSE 0)
              [] kind = "single" -> C2(Cardinality(SA))
              [] kind = "cart" -> Cardinality(SA) * Cardinality(SB)
Unord(p) == {p[1], p[2]}
EachOnce == phase # "idle" =>
              \A i, j \in 1..Len(listed) : i # j =>
                 /\ listed[i] # listed[j]
                 /\ kind # "cart" => Unord(listed[i]) # Unord(listed[j])
CountRight == phase = "done" => Len(listed) = Count
AllThere == phase = "done" /\ kind = "sym" =>
              \A x \in SA, y \in SB : (x # y \/ diag) => \E i \in 1..Len(listed) : Unord(listed[i]) = {x, y}
=================================================================================
