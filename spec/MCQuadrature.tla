------------------------------ MODULE MCQuadrature ------------------------------
(* The rules on every small mesh and integrand, against exact integrals.         *)
EXTENDS Quadrature, TLC, Randomization, Json, IOUtils, SequencesExt
CONSTANTS Points, Gaps, Lim, Many
VARIABLES x, f, g
Vals == (-Lim)..Lim
Fr(s) == [i \in DOMAIN s |-> RInt(s[i])]
Init == x \in {<<0>>, <<2>>} /\ f \in {<<v>> : v \in Vals} /\ g \in {<<v>> : v \in {-1, 1}}
Next == /\ Len(x) < Points
        /\ \E d \in Gaps, v \in Vals, u \in {0, 2} : x' = Append(x, x[Len(x)] + d) /\ f' = Append(f, v) /\ g' = Append(g, u)
Spec == Init /\ [][Next]_<<x, f, g>>
Enough == Len(x) >= 2
Even == \A i \in 2..(Len(x) - 1) : x[i + 1] - x[i] = x[i] - x[i - 1]
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
\* on an equally spaced mesh both forms of the rule agree
Same == Enough /\ Even => Trap(Fr(f), Fr(x)) = TrapEq(Fr(f), Fr(x))
\* linear in the integrand, sign-consistent under reversal, additive over sub-intervals
Linear == Enough => Trap(Fr([i \in DOMAIN f |-> 2 * f[i] - 3 * g[i]]), Fr(x)) = RSub(RMul(RInt(2), Trap(Fr(f), Fr(x))), RMul(RInt(3), Trap(Fr(g), Fr(x))))
LinearS == Enough /\ Even => \A m \in {"trapz", "simpson"} : Quad(m, TRUE, Fr([i \in DOMAIN f |-> f[i] + g[i]]), Fr(x)) = RAdd(Quad(m, TRUE, Fr(f), Fr(x)), Quad(m, TRUE, Fr(g), Fr(x)))
Mirror == Enough => Trap(Fr(Rev(f)), Fr(Rev(x))) = RNeg(Trap(Fr(f), Fr(x)))
MirrorS == Enough /\ Even => \A m \in {"trapz", "simpson"} : Quad(m, TRUE, Fr(Rev(f)), Fr(Rev(x))) = RNeg(Quad(m, TRUE, Fr(f), Fr(x)))
Additive == \A k \in 2..(Len(x) - 1) : Trap(Fr(f), Fr(x)) = RAdd(Trap(Fr(SubSeq(f, 1, k)), Fr(SubSeq(x, 1, k))), Trap(Fr(SubSeq(f, k, Len(f))), Fr(SubSeq(x, k, Len(x)))))
\* exact on their class
Poly(c, t) == c[1] + t * (c[2] + t * (c[3] + t * c[4]))
Exact(c, a, b) == RAdd(RAdd(RInt(c[1] * (b - a)), R(c[2] * (b * b - a * a), 2)), RAdd(R(c[3] * (b * b * b - a * a * a), 3), R(c[4] * (b * b * b * b - a * a * a * a), 4)))
Cs(k) == {<<f[1], g[1], IF k > 1 THEN f[1] + 1 ELSE 0, IF k > 1 THEN -2 ELSE 0>>}
\* the rule that follows the mesh: exact on linear functions, consistent under reversal, positive on squares
MeshExact == Enough => \A m \in {"trapz", "simpson"}, c \in Cs(1) : OnMesh(m, Fr([i \in DOMAIN x |-> Poly(c, x[i])]), Fr(x)) = Exact(c, x[1], x[Len(x)])
MeshMirror == Enough => \A m \in {"trapz", "simpson"} : OnMesh(m, Fr(Rev(f)), Fr(Rev(x))) = RNeg(OnMesh(m, Fr(f), Fr(x)))
MeshSquare == Enough => \A m \in {"trapz", "simpson"} : LET s == OnMesh(m, Fr([i \in DOMAIN f |-> f[i] * f[i]]), Fr(x)) IN s[1] >= 0 /\ (s[1] = 0 => \A i \in DOMAIN f : f[i] = 0)
ExactTrap == Enough => \A c \in Cs(1) : Trap(Fr([i \in DOMAIN x |-> Poly(c, x[i])]), Fr(x)) = Exact(c, x[1], x[Len(x)])
ExactSimp == Enough /\ Even /\ Len(x) % 2 = 1 => \A c \in Cs(3) : Quad("simpson", TRUE, Fr([i \in DOMAIN x |-> Poly(c, x[i])]), Fr(x)) = Exact(c, x[1], x[Len(x)])
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq(UNION {{[f |-> u, gap |-> v] : u \in RandomSubset(Many, [1..n -> (-9)..9]), v \in RandomSubset(4, [1..(n - 1) -> 1..3])} : n \in 2..7}))
=================================================================================
