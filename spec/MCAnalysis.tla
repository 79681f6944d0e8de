-------------------------------- MODULE MCAnalysis -------------------------------
(* Every table of up to Rows triads that share parents and daughters.            *)
EXTENDS Analysis, TLC, Randomization, Json, IOUtils
CONSTANTS Rows, Orders, Many
VARIABLE t
Ns == {<<p, a, b>> : p \in {1, 2}, a \in Orders, b \in Orders} \ {n \in {<<p, a, b>> : p \in {1, 2}, a \in Orders, b \in Orders} : n[2] > n[3]}
Cell == [n : Ns, thr : {0, 2, 4, 6}, eq : {1, 3, 5, 7}]
Ok(u) == \A i, j \in DOMAIN u : i # j => u[i].n # u[j].n /\ (u[i].thr # u[j].thr \/ u[i].thr = 0)
\* the order of rows is immaterial to the definitions: one order per set of triads
Code(n) == n[1] * 100 + n[2] * 10 + n[3]
Sorted(u) == \A i \in 1..(Len(u) - 1) : Code(u[i].n) < Code(u[i + 1].n)
Init == t = <<>> /\ models = <<>> /\ FreqInit
Next == /\ Len(t) < Rows /\ UNCHANGED <<models, freq>>
        /\ \E c \in Cell : t' = Append(t, c) /\ Ok(t') /\ Sorted(t')
Spec == Init /\ [][Next]_<<t, models, freq>>
\* isolated triads have no mode in common
Apart == \A i, j \in DOMAIN t : i # j /\ Isolated(t, i) /\ Isolated(t, j) => ModesOf(t[i]) \intersect ModesOf(t[j]) = {}
\* a triad's isolation depends only on the triads that share a mode with it
Local == \A i \in DOMAIN t : LET S == {j \in DOMAIN t : ModesOf(t[i]) \intersect ModesOf(t[j]) # {}}
                                 u == SelectSeq([j \in DOMAIN t |-> [k |-> j, row |-> t[j]]], LAMBDA x : x.k \in S)
                                 w == [j \in DOMAIN u |-> u[j].row]
                                 k == CHOOSE k \in DOMAIN u : u[k].k = i
                             IN Isolated(t, i) <=> Isolated(w, k)
\* some triad with the lowest threshold of all is isolated unless its own amplitude reaches a rival
LowestWins == \A i \in DOMAIN t : Valued(t[i]) /\ (\A j \in DOMAIN t : j = i \/ ~Valued(t[j]) \/ (t[j].thr > t[i].thr /\ t[j].thr > t[i].eq)) => Isolated(t, i)
(* the observables, on small triads *)
SmallRows == [co : {<<a, b, c>> : a \in {20, -7}, b \in {11, 12}, c \in {7, 9}}, g : {<<1, -2, -3>>, <<2, -1, -4>>}]
SmallMd == [m : {<<2, 1, 1>>, <<0, 1, -1>>}, rot : {3}]
\* the saturated frequencies of the triad lock: parent equals the sum of the daughters in the corotating frame
Locked == \A r \in SmallRows, md \in SmallMd :
   LET x == NonLin(r, md) IN RSub(x[1], RInt(md.m[1] * md.rot)) = RAdd(RSub(x[2], RInt(md.m[2] * md.rot)), RSub(x[3], RInt(md.m[3] * md.rot)))
FoldedInBand == \A k \in -97..200 : LET f == Shown(RInt(k)) IN k < 0 => ~RLess(f, RInt(0)) /\ ~RLess(Nyquist, f)
ASSUME Locked /\ FoldedInBand
Wide == {<<p, a, b>> : p \in {1, 2, 3}, a \in Orders, b \in Orders}
Rand(n, k) == {u \in RandomSubset(n, [1..k -> [n : {x \in Wide : x[2] <= x[3]}, thr : {2, 4, 6, 8, 10, 12}, eq : {1, 5, 7, 11}]]) : Ok(u)}
Three == {u \in [1..2 -> [n : Ns, thr : {2, 4}, eq : {1, 3, 5}]] : Ok(u)}
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq({[t |-> u] : u \in RandomSubset(Many, Three) \union Rand(8 * Many, 3) \union Rand(16 * Many, 4) \union Rand(16 * Many, 5)}))
=================================================================================
