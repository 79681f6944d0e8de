---------------------------- MODULE MCDifferentiation ---------------------------
(* Exactness and symmetries of every scheme on all small meshes.                  *)
EXTENDS Differentiation, TLC, Randomization, Json, IOUtils, SequencesExt
CONSTANTS Points, Gaps, Lim, Many
VARIABLES x, c
Quads == {[name |-> "gradient", ord |-> 1], [name |-> "gradient", ord |-> 2], [name |-> "forward", ord |-> 1], [name |-> "backward", ord |-> 1],
          [name |-> "center", ord |-> 1], [name |-> "center", ord |-> 2]} \cup {[name |-> "fornberg", ord |-> k] : k \in 1..4}
Init == x \in {<<0>>, <<-3>>} /\ c \in {<<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>, <<1, -1, Lim, -Lim>>}
Next == Len(x) < Points /\ UNCHANGED c /\ \E d \in Gaps : x' = Append(x, x[Len(x)] + d)
Spec == Init /\ [][Next]_<<x, c>>
RECURSIVE Poly(_, _, _, _), Der(_, _, _, _)
Poly(k, deg, t, p) == IF k > deg THEN 0 ELSE c[k + 1] * p + Poly(k + 1, deg, t, p * t)
Falling(k, m) == IF m = 1 THEN k ELSE IF m = 2 THEN k * (k - 1) ELSE k * (k - 1) * (k - 2)
Der(k, deg, t, m) == IF k > deg THEN 0 ELSE (IF k < m THEN 0 ELSE c[k + 1] * Falling(k, m) * PowI(t, k - m)) + Der(k + 1, deg, t, m)
Even == \A i \in 2..(Len(x) - 1) : x[i + 1] - x[i] = x[i] - x[i - 1]
Ys(deg) == [i \in DOMAIN x |-> Poly(0, deg, x[i], 1)]
Use(q) == Len(x) >= Need(q)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
N == Len(x)
\* exact on polynomials of its class, everywhere it says anything
Exact == \A q \in Quads : Use(q) => \A d \in {y \in 0..3 : y <= Exactness(q, N)} : \A m \in Orders(q) \cap 1..3 : \A i \in 1..N :
           (Window(q, i, N) # <<>> /\ m <= Len(Window(q, i, N)) - 1) => AtMesh(q, m, x, Ys(d), 1, i) = RInt(Der(0, d, x[i], m))
\* the mesh may be run through backwards
Reversed == \A q \in Quads : Use(q) /\ q.name \in {"gradient", "center"} => \A i \in 1..N :
           Covered(q, N, 1, i) => AtMesh(q, 1, Rev(x), Rev(Ys(3)), 1, N + 1 - i) = AtMesh(q, 1, x, Ys(3), 1, i)
\* a constant has no derivative, a shift changes none
Shifted == \A q \in Quads : Use(q) => \A i \in 1..N : Covered(q, N, 1, i) =>
           AtMesh(q, 1, [k \in 1..N |-> x[k] + 5], [k \in 1..N |-> Ys(3)[k] + 2], 1, i) = AtMesh(q, 1, x, Ys(3), 1, i)
\* refinement keeps the mesh, and is exact for what is linear
Kept == N >= 2 => \A f \in {2, 3} : \A i \in 1..N : Refined(x, f)[(i - 1) * f + 1] = f * x[i]
RefinedExact == N >= 3 => \A f \in {2, 3} : \A q \in {[name |-> "gradient", ord |-> 2], [name |-> "gradient", ord |-> 1], [name |-> "fornberg", ord |-> 2]} : \A i \in 1..N :
           AtMesh(q, 1, x, Ys(1), f, i) = RInt(c[2])
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq(UNION {{[y |-> u, gap |-> v] : u \in RandomSubset(Many, [1..n -> (-6)..6]), v \in RandomSubset(5, [1..(n - 1) -> 1..2])} : n \in 3..8}))
=================================================================================
