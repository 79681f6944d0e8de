---------------------------------- MODULE Profiles --------------------------------
(* Radial profiles of a coupled triad: the structure of the star and the radial    *)
(* parts of the displacements on one mesh, with their radial derivatives.          *)
(* Meshes are integers in units of 1/K of the radius; masses are in units of 4 pi  *)
(* and the constant of gravity in units of 1/(4 pi), so that 4 pi G rho = G rho.    *)
EXTENDS Differentiation

(* --- linear interpolation onto another mesh ------------------------------------ *)
Cell(s, t) == CHOOSE j \in 1..(Len(s) - 1) : s[j] <= t /\ t <= s[j + 1]
Interp(s, v, t) == The({RAdd(v[j], RMul(R(t - s[j], s[j + 1] - s[j]), RSub(v[j + 1], v[j]))) : j \in {Cell(s, t)}})
On(s, v, m) == [i \in DOMAIN m |-> Interp(s, v, m[i])]
Inner(v) == [i \in 1..(Len(v) - 2) |-> v[i + 1]]
\* the first of the longest meshes
Longest(ms) == CHOOSE i \in DOMAIN ms : (\A j \in DOMAIN ms : Len(ms[j]) <= Len(ms[i])) /\ \A j \in 1..(i - 1) : Len(ms[j]) < Len(ms[i])
Ints(v) == [i \in DOMAIN v |-> RInt(v[i])]
RECURSIVE RMax(_)
RMax(v) == IF Len(v) = 1 THEN v[1] ELSE The({IF RLess(v[1], r) THEN r ELSE v[1] : r \in {RMax(Tail(v))}})

(* --- numerical derivative: parabola through neighbouring points ----------------- *)
RECURSIVE DDR(_, _, _, _), DSumR(_, _, _, _, _)
DDR(x, y, a, b) == IF a = b THEN y[a] ELSE RDiv(RSub(DDR(x, y, a + 1, b), DDR(x, y, a, b - 1)), RInt(x[b] - x[a]))
DSumR(x, y, w, t, k) == IF k > Len(w) THEN RInt(0) ELSE RAdd(RMul(DDR(Sub(x, w), Sub(y, w), 1, k), RInt(Pi(x, w, k - 1, <<1, t>>))), DSumR(x, y, w, t, k + 1))
\* in units of 1 / unit of the mesh
Slope(x, y, unit) == The({[i \in DOMAIN s |-> s[i]] : s \in {[i \in DOMAIN x |-> RMul(unit, DSumR(x, y, Gradient(2, i, Len(x)), x[i], 1))]}})
Each(v, Op(_, _), w) == [i \in DOMAIN v |-> Op(v[i], w[i])]
Prod(v, w) == The({Each(p[1], RMul, p[2]) : p \in {<<v, w>>}})
Diff(v, w) == The({Each(p[1], RSub, p[2]) : p \in {<<v, w>>}})
Sum(v, w) == The({Each(p[1], RAdd, p[2]) : p \in {<<v, w>>}})
Quot(v, w) == The({Each(p[1], RDiv, p[2]) : p \in {<<v, w>>}})
Times(c, v) == The({[i \in DOMAIN p |-> RMul(c, p[i])] : p \in {v}})
Minus(v) == Times(RInt(-1), v)

(* --- the structure --------------------------------------------------------------- *)
\* X: mesh; rad = X R / K
Radius(X, u) == [i \in DOMAIN X |-> RDiv(RInt(X[i]), u)]
(* what: "exact" derivatives follow from hydrostatic equilibrium, conservation of   *)
(* mass and the buoyancy frequency; "mixed" the same but for that of the density;    *)
(* "numeric" all of them by differentiation.  u: K / R.                              *)
Gravity(G, M, r) == Times(G, Quot(M, Prod(r, r)))
FirstRho(what, X, u, s, g) == IF what = "exact" THEN Prod(s.rho, Diff(Minus(Quot(Prod(s.rho, g), Prod(s.gam, s.P))), Quot(s.N2, g))) ELSE Slope(X, s.rho, u)
Structure(what, X, u, G, s) ==
 The({ The({ The({ The({ The({ The({ The({ The({ The({ 
   [g |-> g, dg |-> dg, ddg |-> ddg, drho |-> d1, ddrho |-> d2, dddrho |-> d3, dP |-> dP, ddP |-> ddP,
    dddP |-> IF what = "numeric" THEN Slope(X, ddP, u) ELSE Diff(Diff(Minus(Prod(ddg, s.rho)), Times(RInt(2), Prod(dg, d1))), Prod(g, d2))]
   : ddP \in {IF what = "numeric" THEN Slope(X, dP, u) ELSE Diff(Minus(Prod(dg, s.rho)), Prod(g, d1))}})
   : dP \in {IF what = "numeric" THEN Slope(X, s.P, u) ELSE Minus(Prod(g, s.rho))}})
   : ddg \in {IF what = "numeric" THEN Slope(X, dg, u) ELSE Sum(Times(G, d1), Times(RInt(2), Quot(Diff(Quot(g, r), dg), r)))}})
   : dg \in {IF what = "numeric" THEN Slope(X, g, u) ELSE Diff(Times(G, s.rho), Times(RInt(2), Quot(g, r)))}})
   : d3 \in {Slope(X, d2, u)}})
   : d2 \in {Slope(X, d1, u)}})
   : d1 \in {FirstRho(what, X, u, s, g)}})
   : g \in {Gravity(G, s.M, r)}})
   : r \in {Radius(X, u)}})
\* in units of the largest pressure and the largest density
Scaled(v, n) == Times(RInv(n), v)

(* --- the displacement of a mode --------------------------------------------------- *)
RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN RInt(1) ELSE IF k < 0 THEN RInv(RPow(a, -k)) ELSE RMul(a, RPow(a, k - 1))
\* m: y1, y2 (on X), l, lam, om2 (frequency squared, without dimension)
\* s: V2, As, U, c1, gam, rho on X; K: mesh unit; w: R^3 / M
Fraction(X, K) == [i \in DOMAIN X |-> R(X[i], K)]
Vg(s, x) == Quot(Prod(s.V2, Prod(x, x)), s.gam)
Lift(y, l, x) == The({[i \in DOMAIN p[1] |-> RMul(p[1][i], RPow(p[2][i], l - 2))] : p \in {<<y, x>>}})
Const(c, v) == [i \in DOMAIN v |-> c]
DRadial(s, m, x, z1, z2, c) == The({Sum(Prod(Diff(v, Const(RInt(2), v)), z1), Prod(Diff(Quot(Const(m.lam, v), c), v), z2)) : v \in {Vg(s, x)}})
DHorizontal(s, m, x, z1, z2, c, w) ==
   The({Sum(Prod(Diff(one, Quot(s.As, c)), z1), Prod(Sum(Quot(Diff(Diff(s.As, s.U), one), c), Times(RDiv(w, m.om2), s.rho)), z2)) : one \in {Const(RInt(1), x)}})
Mode(symbolic, X, K, w, s, m) ==
 The({ The({ The({ The({ The({
   [z1 |-> z1, z2 |-> z2, xz1 |-> a, z2c |-> Quot(z2, c), xz2c |-> b,
    dxz1 |-> IF symbolic THEN DRadial(s, m, x, z1, z2, c) ELSE Slope(X, a, RInt(K)),
    dxz2c |-> IF symbolic THEN DHorizontal(s, m, x, z1, z2, c, w) ELSE Slope(X, b, RInt(K)),
    div |-> Prod(Vg(s, x), Diff(z1, z2))]
   : a \in {Prod(x, z1)}, b \in {Prod(x, Quot(z2, c))}})
   : z1 \in {Lift(m.y1, m.l, x)}, z2 \in {Lift(m.y2, m.l, x)}})
   : c \in {Times(m.om2, s.c1)}})
   : x \in {Fraction(X, K)}})
   : k \in {0}})
===================================================================================
