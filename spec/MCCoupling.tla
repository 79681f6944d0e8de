------------------------------- MODULE MCCoupling ------------------------------
(* The contraction formulas on many triples of pseudo-random modes (two radial   *)
(* and three meridional points), and on rigid and homologous displacements.      *)
EXTENDS Coupling, TLC, FiniteSets, Json, IOUtils, SequencesExt, Randomization
CONSTANTS Seeds, Many
VARIABLES a, b, c
Mu == <<<<-4, 5>>, <<0, 1>>, <<4, 5>>>>
Rnd(k, n) == (((k * 7919 + n * 10473 + ((k * n * 31) % 977)) \div 7) % 5) - 2
V(k, n, len) == [i \in 1..len |-> Rnd(k, 10 * n + i)]
Mode(k) == [z1 |-> V(k, 1, 2), z2 |-> V(k, 2, 2), d1 |-> V(k, 3, 2), d2 |-> V(k, 4, 2), dv |-> V(k, 5, 2), hr |-> V(k, 6, 3), ht |-> V(k, 7, 3), hp |-> V(k, 8, 3),
            qr |-> V(k, 9, 3), qt |-> V(k, 10, 3), qp |-> V(k, 11, 3), mr |-> [i \in 1..3 |-> 3 * Rnd(k, 120 + i)], tp |-> [i \in 1..3 |-> 3 * Rnd(k, 130 + i)], pp |-> V(k, 14, 3)]
Init == a \in 1..Seeds /\ b = 1 /\ c = 1
Next == \/ b < Seeds /\ b' = b + 1 /\ UNCHANGED <<a, c>>
        \/ c < Seeds /\ c' = c + 1 /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b, c>>
M == <<Mode(a), Mode(b), Mode(c)>>
At_(D(_, _, _, _)) == [i \in 1..2 |-> [j \in 1..3 |-> D(M, i, j, Mu)]]
Perms == {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}
Pts == (1..2) \X (1..3)
\* real, whatever the order of the modes
Real == \A q \in Pts : Den1(M, q[1], q[2], Mu)[2] = 0 /\ Den3(M, q[1], q[2], Mu)[2] = 0
Symmetric == \A q \in Pts : \A s \in Perms : LET N == <<M[s[1]], M[s[2]], M[s[3]]>> IN
   /\ Den1(N, q[1], q[2], Mu) = Den1(M, q[1], q[2], Mu) /\ Den2(N, q[1], q[2], Mu) = Den2(M, q[1], q[2], Mu) /\ Den3(N, q[1], q[2], Mu) = Den3(M, q[1], q[2], Mu)
   /\ Den4r(N, q[1], q[2]) = Den4r(M, q[1], q[2]) /\ Den4t(N, q[1], q[2]) = Den4t(M, q[1], q[2])
\* linear in every mode
Times(z, k) == [z EXCEPT !.z1 = [i \in 1..2 |-> k * @[i]], !.z2 = [i \in 1..2 |-> k * @[i]], !.d1 = [i \in 1..2 |-> k * @[i]], !.d2 = [i \in 1..2 |-> k * @[i]], !.dv = [i \in 1..2 |-> k * @[i]]]
Scaled == \A q \in Pts : LET N == <<M[1], Times(M[2], 3), Times(M[3], -2)>> IN
   /\ Den1(N, q[1], q[2], Mu)[1] = -6 * Den1(M, q[1], q[2], Mu)[1] /\ Den2(N, q[1], q[2], Mu)[1] = -6 * Den2(M, q[1], q[2], Mu)[1]
   /\ Den3(N, q[1], q[2], Mu)[1] = -6 * Den3(M, q[1], q[2], Mu)[1] /\ Den4t(N, q[1], q[2]) = -6 * Den4t(M, q[1], q[2])
(* --- displacements whose gradient is known --- *)
\* along the axis: xi = e_z, scaled by 5, at radii 1 and 2 (scaled by 2)
Zero2 == <<0, 0>>
Zero3 == <<0, 0, 0>>
Axial == [z1 |-> <<2, 1>>, z2 |-> <<2, 1>>, d1 |-> Zero2, d2 |-> Zero2, dv |-> Zero2, hr |-> <<-4, 0, 4>>, ht |-> <<-3, -5, -3>>, hp |-> Zero3,
          qr |-> <<-3, -5, -3>>, qt |-> <<4, 0, -4>>, qp |-> Zero3, mr |-> Zero3, tp |-> Zero3, pp |-> <<4, 0, -4>>]
\* across it: xi = e_x + i e_y, azimuthal order 1
Across == [Axial EXCEPT !.hr = <<3, 5, 3>>, !.ht = <<-4, 0, 4>>, !.hp = <<5, 5, 5>>, !.qr = <<-4, 0, 4>>, !.qt = <<-3, -5, -3>>, !.mr = <<3, 5, 3>>, !.pp = <<-3, -5, -3>>]
\* homologous: xi = r
Dilation == [Axial EXCEPT !.z1 = <<1, 1>>, !.z2 = Zero2, !.d1 = <<1, 1>>, !.dv = <<3, 3>>, !.hr = <<1, 1, 1>>, !.ht = Zero3, !.qr = Zero3, !.qt = Zero3, !.pp = Zero3]
Rigid == \A q \in Pts : \A T \in {Axial, Across} : /\ \A u \in Axes, v \in Axes : Gradient(T, q[1], q[2], Mu)[u][v] = <<0, 0>>
                                                   /\ Den3(<<T, M[2], M[3]>>, q[1], q[2], Mu) = <<0, 0>>
                                                   /\ Den1(<<T, M[2], M[3]>>, q[1], q[2], Mu) = <<0, 0>>
Homologous == \A q \in Pts : LET B == Gradient(M[2], q[1], q[2], Mu) C == Gradient(M[3], q[1], q[2], Mu) IN
   /\ Den3(<<Dilation, M[2], M[3]>>, q[1], q[2], Mu)[1] = 2 * Tr2(B, C)[1]
   /\ Den1(<<Dilation, M[2], M[3]>>, q[1], q[2], Mu)[1] = 3 * Tr2(B, C)[1] + Tr(B)[1] * Div(M[3], q[1], q[2]) + Tr(C)[1] * Div(M[2], q[1], q[2])
Meshes == <<<<<<-4, 5>>, <<0, 1>>, <<4, 5>>>>, <<<<-3, 5>>, <<0, 1>>, <<3, 5>>>>, <<<<0, 1>>, <<3, 5>>>>, <<<<-4, 5>>, <<-2, 5>>, <<0, 1>>, <<2, 5>>, <<4, 5>>>>, <<<<-3, 5>>, <<3, 5>>>>,
            \* not equally spaced, as the mesh of the Hough functions
            <<<<-4, 5>>, <<-3, 5>>, <<0, 1>>, <<3, 5>>, <<4, 5>>>>, <<<<-4, 5>>, <<0, 1>>, <<3, 5>>>>, <<<<4, 5>>, <<3, 5>>, <<0, 1>>, <<-4, 5>>>>>>
ASSUME {EvenMesh(m) : m \in Range(Meshes)} = BOOLEAN
Conj == {<<TRUE, FALSE, FALSE>>, <<FALSE, TRUE, TRUE>>, <<FALSE, FALSE, FALSE>>, <<FALSE, FALSE, TRUE>>}
Az == {<<2, 1, 1>>, <<0, 1, -1>>, <<1, 1, 0>>, <<-2, -1, -1>>, <<1, 1, 1>>, <<0, 0, 0>>, <<-1, 0, 1>>}
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq(RandomSubset(Many, [mu : Range(Meshes), n : 2..4, method : {"trapz", "simpson"}, conj : Conj, az : Az, poly : BOOLEAN, ad : BOOLEAN, R : 1..2])))
=================================================================================
