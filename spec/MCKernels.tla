-------------------------------- MODULE MCKernels ------------------------------
(* The terms multiplied out, against the contractions themselves, on triples of   *)
(* pseudo-random modes; figures drawn kernel by kernel.                           *)
EXTENDS Kernels, TLC, Json, IOUtils, SequencesExt
CONSTANTS Seeds
VARIABLES a, b, c
Mu == <<<<-4, 5>>, <<0, 1>>, <<4, 5>>>>
Rnd(k, n) == (((k * 7919 + n * 10473 + ((k * n * 31) % 977)) \div 7) % 5) - 2
V(k, n, len) == [i \in 1..len |-> Rnd(k, 10 * n + i)]
Mode(k) == [z1 |-> V(k, 1, 2), z2 |-> V(k, 2, 2), d1 |-> V(k, 3, 2), d2 |-> V(k, 4, 2), dv |-> V(k, 5, 2), hr |-> V(k, 6, 3), ht |-> V(k, 7, 3), hp |-> V(k, 8, 3),
            qr |-> V(k, 9, 3), qt |-> V(k, 10, 3), qp |-> V(k, 11, 3), mr |-> [i \in 1..3 |-> 3 * Rnd(k, 120 + i)], tp |-> [i \in 1..3 |-> 3 * Rnd(k, 130 + i)], pp |-> V(k, 14, 3)]
Init == a \in 1..Seeds /\ b = 1 /\ c = 1
Next == \/ b < Seeds /\ b' = b + 1 /\ UNCHANGED <<a, c>>
        \/ c < Seeds /\ c' = c + 1 /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b, c>>
M == <<Mode(a), Mode(b), Mode(c)>>
ValueOf(t, i, j) == RMul(RInt(t.c * M[1][t.rad[1]][i] * M[2][t.rad[2]][i] * M[3][t.rad[3]][i] * M[1][t.ang[1]][j] * M[2][t.ang[2]][j] * M[3][t.ang[3]][j]), IF t.s = 1 THEN RInv(Sines[Mu[j]]) ELSE RInt(1))
RECURSIVE SumOf(_, _, _)
SumOf(s, i, j) == IF s = <<>> THEN RInt(0) ELSE RAdd(ValueOf(Head(s), i, j), SumOf(Tail(s), i, j))
P1 == SetToSeq(Products1)
P3 == SetToSeq(Products3)
P4 == SetToSeq(Products4t)
Faithful == \A i \in 1..2, j \in 1..3 :
   /\ SumOf(P1, i, j) = RInt(Den1(M, i, j, Mu)[1])
   /\ SumOf(P3, i, j) = RInt(Den3(M, i, j, Mu)[1])
   /\ SumOf(P4, i, j) = RInt(Den4t(M, i, j))
   /\ SumOf(SetToSeq(Products2), i, j) = RInt(Den2(M, i, j, Mu)[1])
   /\ SumOf(SetToSeq(Products4r), i, j) = RInt(Den4r(M, i, j))
\* real, at most one sine, and no order of the modes is singled out
Shuffle(f, o) == [m \in 1..3 |-> f[o[m]]]
ASSUME \A k \in 1..4 : \A t \in Products[k] : t.i = 0 /\ t.s \in {0, 1}
ASSUME \A k \in 1..4, o \in Orders : /\ {[x EXCEPT !.names = Shuffle(x.names, o)] : x \in AngularAll[k]} = AngularAll[k]
                                     /\ {[x EXCEPT !.names = Shuffle(x.names, o)] : x \in RadialAll[k]} = RadialAll[k]
\* kernels that differ in more than the order of the modes
Count(f, v) == Cardinality({m \in 1..3 : f[m] = v})
Kinds(S) == Cardinality({[x EXCEPT !.names = [v \in {"hr", "ht", "hp", "qr", "qt", "qp", "mr", "tp", "pp", "z1", "z2", "d1", "d2", "dv"} |-> Count(x.names, v)]] : x \in S})
ASSUME [k \in 1..4 |-> Kinds(AngularAll[k])] = <<10, 1, 22, 3>>
ASSUME [k \in 1..4 |-> Kinds(RadialAll[k])] = <<6, 2, 10, 3>>
ASSUME PrintT([k \in 1..4 |-> <<Cardinality(AngularAll[k]), Cardinality(RadialAll[k])>>])
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq({[kinds |-> w] : w \in [1..5 -> {"V", "I"}]}))
=================================================================================
