-------------------------------- MODULE Quadrature ------------------------------
(* Numerical quadrature, exactly: the composite trapezoidal and Simpson rules on *)
(* a mesh x with values f, the disc integrals of an angular function and the     *)
(* angular (theta) integrals of products of functions.  f, x: sequences of       *)
(* integers or of fractions.                                                     *)
EXTENDS Rational, Sequences
RECURSIVE RSum(_, _, _)
RSum(T(_), i, n) == IF i > n THEN RInt(0) ELSE RAdd(T(i), RSum(T, i + 1, n))
\* any increasing mesh
Trap(f, x) == RSum(LAMBDA i : RMul(RMul(RAdd(f[i], f[i + 1]), <<1, 2>>), RSub(x[i + 1], x[i])), 1, Len(f) - 1)
\* the same from the first increment alone: for equally spaced meshes
TrapEq(f, x) == RMul(RSub(x[2], x[1]), RAdd(RMul(RAdd(f[1], f[Len(f)]), <<1, 2>>), RSum(LAMBDA i : f[i], 2, Len(f) - 1)))
SimpEq(f, x) == RMul(RMul(RSub(x[2], x[1]), <<1, 3>>),
                     RAdd(RAdd(f[1], f[Len(f)]), RSum(LAMBDA i : RMul(RInt(IF i % 2 = 0 THEN 4 ELSE 2), f[i]), 2, Len(f) - 1)))
\* Simpson needs an odd number of equally spaced points; otherwise the trapezoidal rule serves
Quad(method, equal, f, x) == IF ~equal THEN Trap(f, x)
                             ELSE IF method = "simpson" /\ Len(f) % 2 = 1 THEN SimpEq(f, x) ELSE TrapEq(f, x)
\* angular functions live on any mesh (that of the Hough functions is not equally spaced): the rule follows the mesh
EvenMesh(x) == \A i \in 2..(Len(x) - 1) : RSub(x[i + 1], x[i]) = RSub(x[2], x[1])
OnMesh(method, f, x) == Quad(method, EvenMesh(x), f, x)

(* --- disc integrals: over the visible hemisphere 0 <= mu <= 1, limb darkened --- *)
Visible(mu) == SelectSeq([i \in DOMAIN mu |-> i], LAMBDA i : ~RLess(mu[i], RInt(0)) /\ ~RLess(RInt(1), mu[i]))
Limb(m) == RAdd(RInt(1), RMul(<<3, 2>>, m))
DiscOf(v, mu, method, T(_)) == OnMesh(method, [k \in DOMAIN v |-> RMul(RMul(mu[v[k]], Limb(mu[v[k]])), T(v[k]))], [k \in DOMAIN v |-> mu[v[k]]])
DiscT(mu, h, method) == DiscOf(Visible(mu), mu, method, LAMBDA i : h[i])
DiscE(mu, d1, d2, method) == DiscOf(Visible(mu), mu, method,
   LAMBDA i : RAdd(RMul(RMul(RInt(2), mu[i]), d1[i]), RMul(RSub(RMul(mu[i], mu[i]), RInt(1)), d2[i])))

(* --- theta integrals: product of functions, times cos, over sin of the colatitude --- *)
RECURSIVE ProdAt(_, _)
ProdAt(fs, i) == IF fs = <<>> THEN RInt(1) ELSE RMul(Head(fs)[i], ProdAt(Tail(fs), i))
\* squares of sines used in the tests are squares of fractions
Sines == [c \in {<<0, 1>>, <<3, 5>>, <<-3, 5>>, <<4, 5>>, <<-4, 5>>} |-> IF c = <<0, 1>> THEN <<1, 1>> ELSE IF c \in {<<3, 5>>, <<-3, 5>>} THEN <<4, 5>> ELSE <<3, 5>>]
Integrand(fs, mu, cosine, sine) == [i \in DOMAIN mu |-> RMul(RMul(ProdAt(fs, i), IF cosine THEN mu[i] ELSE RInt(1)), IF sine THEN RInv(Sines[mu[i]]) ELSE RInt(1))]
\* azimuthal selection: conj is "none", a boolean for the first function, or one for each
Signed(conj, m) == IF conj = "none" THEN m
                   ELSE IF conj \in {"T", "F"} THEN [i \in DOMAIN m |-> IF i = 1 /\ conj = "T" THEN -m[i] ELSE m[i]]
                   ELSE [i \in DOMAIN m |-> IF SubSeq(conj, i, i) = "T" THEN -m[i] ELSE m[i]]
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
AzimuthOk(only, m, conj) == only \/ m = <<>> \/ Total(Signed(conj, m)) = 0
\* in units of 2 pi
Theta(fs, mu, cosine, sine, method) == OnMesh(method, Integrand(fs, mu, cosine, sine), mu)
\* Chebyshev-Gauss on an integrand (before division by the sine) that is a + b mu on -1..1: pi a
RECURSIVE MaxAbs(_)
MaxAbs(f) == IF Len(f) = 1 THEN (IF f[1][1] < 0 THEN RNeg(f[1]) ELSE f[1])
             ELSE LET m == MaxAbs(Tail(f)) h == MaxAbs(<<Head(f)>>) IN IF RLess(m, h) THEN h ELSE m
=================================================================================
