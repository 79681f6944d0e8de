------------------------------ MODULE MCHistogram -------------------------------
EXTENDS Histogram, TLC, Json, IOUtils, SequencesExt, Randomization
CONSTANTS Points, Many
(* Points are put into the histogram one at a time, in any order.                *)
VARIABLES log, n, d, todo, h
vars == <<log, n, d, todo, h>>
Ev == 0..12
Lv == 4..64
Data(lg) == IF lg THEN {<<4, 64>> \o s : s \in [1..Points -> {5, 7, 8, 15, 16, 30, 64}]} ELSE {<<0, 12>> \o s : s \in [1..Points -> {0, 1, 4, 6, 7, 11, 12}]}
Ns(lg) == IF lg THEN {1, 2, 4} ELSE {1, 2, 3, 4, 6}
Edge == Edges(log, Lowest(d), Highest(d), n)
Init == /\ log \in BOOLEAN /\ n \in Ns(log) /\ d \in Data(log)
        /\ todo = DOMAIN d /\ h = [i \in 1..n |-> 0]
Next == \E j \in todo : /\ todo' = todo \ {j}
                        /\ h' = [h EXCEPT ![Bin(log, Edge, d[j])] = @ + 1]
                        /\ UNCHANGED <<log, n, d>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Conserved == Total(h) + Cardinality(todo) = Len(d)
\* in the end the histogram does not depend on the order
Confluent == todo = {} => h = Counts(log, Edge, d)
RECURSIVE RSum(_)
RSum(s) == IF s = <<>> THEN RInt(0) ELSE RAdd(s[1], RSum(Tail(s)))
\* parts add up to one; densities integrate to one
Unit == todo = {} => /\ RSum(Shown("part", h, Edge, Len(d))) = RInt(1)
                     /\ \E s \in {Shown("density", h, Edge, Len(d))} : RSum([i \in DOMAIN s |-> RMul(s[i], RInt(Width(Edge, i)))]) = RInt(1)
\* every two bins of the halved mesh make one bin
Refines == (todo = {} /\ n \in {2, 4, 6}) => \E c \in {Counts(log, Edges(log, Lowest(d), Highest(d), n \div 2), d)} : \A i \in DOMAIN c : c[i] = h[2 * i - 1] + h[2 * i]
\* equal bins follow a shift, logarithmic ones a factor
Moves == todo = {} => IF log THEN Counts(log, LogEdges(3 * d[1], 3 * d[2], n), [j \in DOMAIN d |-> 3 * d[j]]) = h
                      ELSE Counts(log, EvenEdges(5, 17, n), [j \in DOMAIN d |-> d[j] + 5]) = h
Missed == todo = {} => Valued(<<Missing>> \o d \o <<Missing>>) = d
(* The closed form is the leave-one-out likelihood: each point takes the          *)
(* density the other points give to its bin, alpha of a point being added to     *)
(* every bin.                                                                    *)
Others(j) == {k \in DOMAIN d : k # j}
Left(j, a) == LET b == Bin(log, Edge, d[j]) IN
  <<Cardinality({k \in Others(j) : Bin(log, Edge, d[k]) = b}) * a[2] + a[1], Cardinality(Others(j)) * a[2] + n * a[1], Width(Edge, b)>>
RECURSIVE SumOver(_, _)
SumOver(S, a) == IF S = {} THEN 0 ELSE LET j == The(S) IN (Ln[Left(j, a)[1]] - Ln[Left(j, a)[2]] - Ln[Left(j, a)[3]]) + SumOver(S \ {j}, a)
LeaveOneOut == todo = {} => \A a \in {<<1, 2>>, <<1, 1>>, <<3, 2>>, <<5, 1>>} : Defined(h, a) => Likelihood(h, Edge, a) = SumOver(DOMAIN d, a)
Ends == <>(todo = {})
Alphas == {<<1, 10>>, <<1, 2>>, <<1, 1>>, <<3, 2>>, <<2, 1>>, <<10, 1>>}
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq(RandomSubset(Many,
         [log : BOOLEAN, k : 1..8, al : [1..3 -> Alphas], nb : [1..3 -> 1..6], form : {"count", "part", "density", "both"}, say : BOOLEAN, par : BOOLEAN, tell : BOOLEAN, gaps : 0..2, seed : 1..50])))
=================================================================================
