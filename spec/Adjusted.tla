--------------------------------- MODULE Adjusted -------------------------------
(* A quantity accumulated outward over the mesh (y: the value reached at every   *)
(* mesh point), with the layers taken out in which the approximation fails.      *)
(* A layer between two neighbouring points counts when its inner point is valid. *)
EXTENDS Zones
RECURSIVE AdjUpTo(_, _, _)
AdjUpTo(y, v, k) == IF k = 1 THEN y[1] ELSE AdjUpTo(y, v, k - 1) + (IF v[k - 1] THEN y[k] - y[k - 1] ELSE 0)
Adj(y, v) == [k \in 1..Len(y) |-> AdjUpTo(y, v, k)]
AdjTotal(y, v) == AdjUpTo(y, v, Len(y))
\* what every invalid zone had contributed, from the core outward
Taken(y, v) == LET b == Borders(v) IN [i \in 1..Len(b) |-> y[b[i][2] + 1] - y[b[i][1] + 1]]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
(* amplitudes and fluxes that are inversely proportional to the coefficient: the  *)
(* adjusted one is the plain one times cc / adjusted cc                           *)
=================================================================================
