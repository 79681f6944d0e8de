--------------------------------- MODULE Histogram ------------------------------
(* Histograms of data on bins of equal width, or of equal width in the          *)
(* logarithm, and the choice of the number of bins by the leave-one-out          *)
(* likelihood of Hogg (2008).  Data are integers; Missing stands for no value.   *)
EXTENDS Rational, LnTable, Sequences, FiniteSets
Missing == -9999
Valued(d) == SelectSeq(d, LAMBDA x : x # Missing)
RECURSIVE Lowest(_), Highest(_), Total(_)
Lowest(d) == IF Len(d) = 1 THEN d[1] ELSE LET r == Lowest(Tail(d)) IN IF d[1] < r THEN d[1] ELSE r
Highest(d) == IF Len(d) = 1 THEN d[1] ELSE LET r == Highest(Tail(d)) IN IF d[1] > r THEN d[1] ELSE r
Total(s) == IF s = <<>> THEN 0 ELSE s[1] + Total(Tail(s))
RECURSIVE Power(_, _), Exponent(_, _)
Power(b, k) == IF k = 0 THEN 1 ELSE b * Power(b, k - 1)
\* k with base^k = v
Exponent(v, b) == IF v = 1 THEN 0 ELSE 1 + Exponent(v \div b, b)

(* Edges: n + 1 of them, from the smallest to the largest value.                 *)
EvenEdges(lo, hi, n) == [i \in 1..(n + 1) |-> lo + (i - 1) * ((hi - lo) \div n)]
\* hi is lo times a power of two divisible by n
LogEdges(lo, hi, n) == LET k == Exponent(hi \div lo, 2) IN [i \in 1..(n + 1) |-> lo * Power(2, (i - 1) * (k \div n))]
Edges(log, lo, hi, n) == IF log THEN LogEdges(lo, hi, n) ELSE EvenEdges(lo, hi, n)

(* Bin of a value.  Equal bins hold their lower edge, the last one both; bins of  *)
(* equal logarithmic width hold their upper edge, the first one both.            *)
Bin(log, e, x) == LET n == Len(e) - 1 IN
  IF log THEN IF x = e[1] THEN 1 ELSE The({i \in 1..n : e[i] < x /\ x <= e[i + 1]})
  ELSE IF x = e[n + 1] THEN n ELSE The({i \in 1..n : e[i] <= x /\ x < e[i + 1]})
Counts(log, e, d) == The({[i \in 1..(Len(e) - 1) |-> Cardinality({j \in DOMAIN d : b[j] = i})] : b \in {[j \in DOMAIN d |-> Bin(log, e, d[j])]}})
Width(e, i) == e[i + 1] - e[i]
\* what is asked for: counts, the part of the data, or the density; the first of two requests wins
Kind(prob, dens) == IF prob THEN "part" ELSE IF dens THEN "density" ELSE "count"
Shown(kind, c, e, N) == [i \in DOMAIN c |-> CASE kind = "count" -> RInt(c[i])
                                              [] kind = "part" -> R(c[i], N)
                                              [] kind = "density" -> R(c[i], N * Width(e, i))]

(* Leave-one-out likelihood, for smoothing alpha = p / q.  A bin without data     *)
(* has no logarithm unless alpha > 1: then there is no likelihood.               *)
Defined(c, a) == \A i \in DOMAIN c : c[i] * a[2] + a[1] - a[2] > 0
RECURSIVE SumLn(_, _, _, _, _), LnOf(_)
LnOf(w) == IF w <= 1500 THEN Ln[w] ELSE Ln[2] + LnOf(w \div 2)
SumLn(c, e, a, den, i) == IF i > Len(c) THEN 0
  ELSE (IF c[i] = 0 THEN 0 ELSE c[i] * (Ln[a[2] * (c[i] - 1) + a[1]] - den - LnOf(Width(e, i)))) + SumLn(c, e, a, den, i + 1)
Likelihood(c, e, a) == SumLn(c, e, a, Ln[a[2] * (Total(c) - 1) + Len(c) * a[1]], 1)
\* every admissible choice with its likelihood, in the order alpha, then number of bins
Offers(log, d, alphas, bins) ==
  The({LET lo == Lowest(v) hi == Highest(v) IN
       {x \in {[a |-> alphas[i], n |-> bins[j], c |-> Counts(log, Edges(log, lo, hi, bins[j]), v), e |-> Edges(log, lo, hi, bins[j])] : i \in DOMAIN alphas, j \in DOMAIN bins} :
           Defined(x.c, x.a)} : v \in {Valued(d)}})
Tie == 200
\* those of the largest likelihood (up to rounding)
Best(S) == The({{y[1] : y \in {z \in L : \A w \in L : w[2] <= z[2] + Tie}} : L \in {{<<x, Likelihood(x.c, x.e, x.a)>> : x \in S}}})
=================================================================================
