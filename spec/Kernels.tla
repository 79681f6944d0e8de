---------------------------------- MODULE Kernels --------------------------------
(* The kernels of the coupling coefficient: each of its four terms, multiplied    *)
(* out, is a sum of products of a radial and an angular kernel.  A radial kernel  *)
(* is a product of one radial function of each mode (z1 = xi_r / r, z2 = xi_h / r,*)
(* d1, d2 their gradients along the radius, dv = divergence), with profiles of    *)
(* the background; an angular kernel one of angular functions (hr ht hp; qr qt qp *)
(* their derivatives, mr = m hr, pp and tp azimuthal), over the sine or not.      *)
(* What is multiplied out are the symbols of the displacement gradient.           *)
EXTENDS Coupling, FiniteSets
Sym(c, i, rad, ang, s) == [c |-> c, i |-> i, rad |-> rad, ang |-> ang, s |-> s]
\* Coupling!Gradient, symbol by symbol: coefficient, power of i, functions, power of 1 / sin
Entry == [r |-> [r |-> {Sym(1, 0, "d1", "hr", 0)}, t |-> {Sym(1, 0, "z1", "qr", 0), Sym(-1, 0, "z2", "ht", 0)}, p |-> {Sym(1, 1, "z1", "mr", 1), Sym(-1, 1, "z2", "hp", 0)}],
          t |-> [r |-> {Sym(1, 0, "d2", "ht", 0)}, t |-> {Sym(1, 0, "z1", "hr", 0), Sym(1, 0, "z2", "qt", 0)}, p |-> {Sym(1, 1, "z2", "tp", 1)}],
          p |-> [r |-> {Sym(1, 1, "d2", "hp", 0)}, t |-> {Sym(1, 1, "z2", "qp", 0)}, p |-> {Sym(1, 0, "z1", "hr", 0), Sym(1, 0, "z2", "pp", 0)}]]
DivSym == Sym(1, 0, "dv", "hr", 0)
RadSym == Sym(1, 0, "z1", "hr", 0)
TransSyms == {Sym(1, 0, "z2", "ht", 0), Sym(1, 1, "z2", "hp", 0)}
Orders == {<<1, 2, 3>>, <<1, 3, 2>>, <<2, 1, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<3, 2, 1>>}
\* the factor q[o[m]] is that of mode m
Times3(q, o, src) == [src |-> <<o, src>>, c |-> q[1].c * q[2].c * q[3].c * (IF q[1].i + q[2].i + q[3].i = 2 THEN -1 ELSE 1), i |-> (q[1].i + q[2].i + q[3].i) % 2,
                      rad |-> [m \in 1..3 |-> q[o[m]].rad], ang |-> [m \in 1..3 |-> q[o[m]].ang], s |-> q[1].s + q[2].s + q[3].s]
(* --- the terms, multiplied out (src keeps equal products apart) --- *)
Axes2 == Axes \X Axes
Axes3 == Axes \X Axes \X Axes
Products1 == UNION {UNION {{Times3(<<x, y, DivSym>>, o, <<a, x, y>>) : x \in Entry[a[1]][a[2]], y \in Entry[a[2]][a[1]]} : a \in Axes2} : o \in {<<1, 2, 3>>, <<1, 3, 2>>, <<3, 1, 2>>}}
Products2 == {Times3(<<DivSym, DivSym, DivSym>>, <<1, 2, 3>>, <<>>)}
Products3 == UNION {UNION {{Times3(<<x, y, z>>, o, <<a, x, y, z>>) : x \in Entry[a[1]][a[2]], y \in Entry[a[2]][a[3]], z \in Entry[a[3]][a[1]]} : a \in Axes3} : o \in {<<1, 2, 3>>, <<1, 3, 2>>}}
Products4r == {Times3(<<RadSym, RadSym, RadSym>>, <<1, 2, 3>>, <<>>)}
Products4t == UNION {{Times3(<<RadSym, x, x>>, o, <<x>>) : x \in TransSyms} : o \in {<<1, 2, 3>>, <<2, 1, 3>>, <<2, 3, 1>>}}
Products == <<Products1, Products2, Products3, Products4r \union Products4t>>
\* profiles of the background that go with a product of term k: p pressure, g its exponent less one, dg derivative of that, rho, r, f1 f2 f3: derivatives of the potential
Backgrounds(k, rad) == CASE k = 1 -> {{"p", "g"}}
                         [] k = 2 -> {{"p", "g2"}, {"p", "dg"}}
                         [] k = 3 -> {{"p"}}
                         [] k = 4 -> IF rad = <<"z1", "z1", "z1">> THEN {{"rho", "r3", "f3"}} ELSE {{"rho", "r2", "f2"}, {"rho", "r", "f1"}}
(* --- what the figures of term k show --- *)
Angular(k) == {[names |-> t.ang, sin |-> t.s = 1] : t \in Products[k]}
RadialKernels(k) == UNION {{[names |-> t.rad, bg |-> b] : b \in Backgrounds(k, t.rad)} : t \in Products[k]}
AngularAll == [k \in 1..4 |-> Angular(k)]
RadialAll == [k \in 1..4 |-> RadialKernels(k)]
(* --- values: w.ang[m], w.rad[m] map names to sequences, w.bg those of the background --- *)
AngularAt(w, c, j) == RMul(RMul(RInt(w.ang[1][c.names[1]][j] * w.ang[2][c.names[2]][j] * w.ang[3][c.names[3]][j]), R(c.fac[1], c.fac[2])),
                           RMul(IF c.mu THEN w.mu[j] ELSE RInt(1), IF c.sin THEN RInv(Sines[w.mu[j]]) ELSE RInt(1)))
BgAt(w, b, i) == CASE b = "g2" -> w.bg["g"][i] * w.bg["g"][i] [] b = "dg" -> w.bg["rho"][i] * w.bg["ad"][i]
                   [] b = "r" -> w.r[i] [] b = "r2" -> w.r[i] * w.r[i] [] b = "r3" -> w.r[i] * w.r[i] * w.r[i] [] OTHER -> w.bg[b][i]
RECURSIVE BgProd(_, _, _)
BgProd(w, s, i) == IF s = <<>> THEN 1 ELSE BgAt(w, Head(s), i) * BgProd(w, Tail(s), i)
\* over the energy, times the cube of the radius if so scaled; up to a factor of the product
RadialAt(w, c, i) == R(w.rad[1][c.names[1]][i] * w.rad[2][c.names[2]][i] * w.rad[3][c.names[3]][i] * BgProd(w, c.bg, i) * (IF c.scaled THEN w.r[i] * w.r[i] * w.r[i] ELSE 1), IF c.scaled THEN w.energy ELSE 1)
\* runs of at least two points in a sequence of booleans: <<first, last>>
Shaded(v) == {z \in (1..Len(v)) \X (1..Len(v)) : /\ z[1] < z[2] /\ \A i \in z[1]..z[2] : v[i]
                                                  /\ (z[1] > 1 => ~v[z[1] - 1]) /\ (z[2] < Len(v) => ~v[z[2] + 1])}
=================================================================================
