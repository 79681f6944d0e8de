-------------------------------- MODULE Polytrope -------------------------------
(* The stellar structure behind a polytropic model, from the equations of stellar *)
(* structure: mass conservation, Poisson, hydrostatic equilibrium, and            *)
(* P ~ rho^(1+1/n).  Densities and pressures carry a factor 4 pi, pressures,      *)
(* gravities and buoyancy are per unit of the gravitational constant.  theta is   *)
(* the square of a fraction s, twice the index n is an integer: all powers are    *)
(* fractions.                                                                     *)
EXTENDS Rational, Sequences
\* c: [n2 twice the index, gam, M, al length unit, lay: layers [z, s, d] from the centre out]
RECURSIVE PowB(_, _)
PowB(x, k) == IF k = 0 THEN RInt(1) ELSE RMul(x, PowB(x, k - 1))
Pow(x, k) == The({IF k < 0 THEN PowB(RInv(v), -k) ELSE PowB(v, k) : v \in {x}})
Sq(x) == The({RMul(v, v) : v \in {x}})
Half(k) == R(k, 2)
Times(k, x) == RMul(RInt(k), x)
Surface(c) == c.lay[Len(c.lay)]
\* mass inside a layer: z^2 theta' measures it, as d(z^2 theta')/dz = -z^2 theta^n
Inside(x) == RMul(Sq(x.z), x.d)
\* the model: total mass and hydrostatic equilibrium fix 4 pi rho_0 and 4 pi P_0 / G; n + 1 and the slope of theta per gravity
Density0(c) == RDiv(RInt(c.M), RMul(Pow(c.al, 3), RNeg(Inside(Surface(c)))))
Pressure0(c, rho0) == RDiv(RMul(Sq(rho0), Sq(c.al)), Half(c.n2 + 2))
Model(c) == The({The({[rho0 |-> a, p0 |-> b, kap |-> RDiv(a, RMul(Half(c.n2 + 2), b)), rad |-> RMul(c.al, Surface(c).z), ins |-> Inside(Surface(c))] : b \in {Pressure0(c, a)}}) : a \in {Density0(c)}})
\* powers of theta (theta = s^2, exponent k / 2) and their derivatives in r, from those of theta
T(s, k) == Pow(s, k)
D1(s, t, k) == RMul(Half(k), RMul(T(s, k - 2), t[1]))
D2(s, t, k) == RAdd(RMul(RMul(Half(k), Half(k - 2)), RMul(T(s, k - 4), Sq(t[1]))), RMul(Half(k), RMul(T(s, k - 2), t[2])))
D3(s, t, k) == RAdd(RAdd(RMul(RMul(RMul(Half(k), Half(k - 2)), Half(k - 4)), RMul(T(s, k - 6), Pow(t[1], 3))),
                         RMul(RMul(RInt(3), RMul(Half(k), Half(k - 2))), RMul(T(s, k - 4), RMul(t[1], t[2])))),
                    RMul(Half(k), RMul(T(s, k - 2), t[3])))
\* mass, radius, density, gravity of a layer
Layer(c, m, x) == [r |-> RMul(c.al, x.z), mass |-> RMul(RInt(c.M), RDiv(Inside(x), m.ins)), rho |-> RMul(m.rho0, T(x.s, c.n2)), p |-> RMul(m.p0, T(x.s, c.n2 + 2))]
\* Poisson's equation: dg/dr = 4 pi rho - 2 g / r, differentiated once more
G1(y, g) == RSub(y.rho, Times(2, RDiv(g, y.r)))
G2(y, g, g1, rho1) == RAdd(RSub(rho1, Times(2, RDiv(g1, y.r))), Times(2, RDiv(g, Sq(y.r))))
\* slope of theta: (n + 1) P_0 theta' = - rho_0 g
Slope(m, g) == RNeg(RMul(m.kap, g))
Grads(c, m, x, y) ==
    The({The({The({The({[g |-> <<g, g1, g2>>, t |-> <<Slope(m, g), Slope(m, g1), Slope(m, g2)>>]
      : g2 \in {G2(y, g, g1, rho1)}}) : rho1 \in {RMul(m.rho0, D1(x.s, <<Slope(m, g)>>, c.n2))}}) : g1 \in {G1(y, g)}}) : g \in {RDiv(y.mass, Sq(y.r))}})
\* everything about layer i
Fill(c, m, x, y, h) ==
    The({The({[rho |-> y.rho, drho |-> rho1, drho2 |-> RMul(m.rho0, D2(x.s, h.t, c.n2)), drho3 |-> RMul(m.rho0, D3(x.s, h.t, c.n2)),
     p |-> y.p, dp |-> p1, dp2 |-> RMul(m.p0, D2(x.s, h.t, c.n2 + 2)), dp3 |-> RMul(m.p0, D3(x.s, h.t, c.n2 + 2)),
     dgravpot |-> h.g[1], dgravpot2 |-> h.g[2], dgravpot3 |-> h.g[3], surfgrav |-> h.g[1], r |-> y.r, mr |-> y.mass,
     v |-> RDiv(RMul(RMul(y.rho, h.g[1]), y.r), y.p),
     v2 |-> RDiv(RDiv(RMul(RMul(y.rho, h.g[1]), y.r), y.p), Sq(RDiv(y.r, m.rad))),
     u |-> RDiv(RMul(y.rho, Pow(y.r, 3)), y.mass),
     c1 |-> RDiv(RMul(Pow(RDiv(y.r, m.rad), 3), RInt(c.M)), y.mass),
     as |-> as, brunt_n2 |-> RDiv(RMul(h.g[1], as), y.r), p0 |-> m.p0, rho0 |-> m.rho0]
     : as \in {RSub(RDiv(RDiv(RMul(y.r, p1), y.p), c.gam), RDiv(RMul(y.r, rho1), y.rho))}})
     : p1 \in {RMul(m.p0, D1(x.s, h.t, c.n2 + 2))}, rho1 \in {RMul(m.rho0, D1(x.s, h.t, c.n2))}})
Star(c) == The({[i \in DOMAIN c.lay |-> The({The({Fill(c, m, c.lay[i], y, h) : h \in {Grads(c, m, c.lay[i], y)}}) : y \in {Layer(c, m, c.lay[i])}})] : m \in {Model(c)}})
=================================================================================
