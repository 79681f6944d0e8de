--------------------------------- MODULE Coupling -------------------------------
(* The quadratic coupling coefficient of three modes, from its definition: the   *)
(* four terms are volume integrals of contractions of the displacement gradients *)
(* (and of the third derivative of the gravitational potential).                 *)
(*                                                                               *)
(* A mode is a record of radial functions (sequences over the radial mesh)       *)
(*   z1 = xi_r / r, z2 = xi_h / r, d1 = d xi_r / dr, d2 = d xi_h / dr, dv = div  *)
(* and of angular functions (sequences over the meridional mesh)                 *)
(*   hr ht hp, their colatitude derivatives qr qt qp, and mr, tp, pp (azimuthal  *)
(*   derivative parts).  The azimuthal component is i hp: an entry of the        *)
(* gradient is [re, im].  Integer data: mr and tp are divisible by the sine.     *)
EXTENDS Quadrature
\* c / sin(theta), exact
OverSin(c, mu) == IF c = 0 THEN 0 ELSE (c * Sines[mu][2]) \div Sines[mu][1]
\* gradient of the displacement at radial point i and meridional point j; rows: component, columns: derivative... G[a][b] = nabla_b xi_a
Gradient(z, i, j, mu) ==
  [r |-> [r |-> <<z.d1[i] * z.hr[j], 0>>, t |-> <<z.z1[i] * z.qr[j] - z.z2[i] * z.ht[j], 0>>, p |-> <<0, z.z1[i] * OverSin(z.mr[j], mu[j]) - z.z2[i] * z.hp[j]>>],
   t |-> [r |-> <<z.d2[i] * z.ht[j], 0>>, t |-> <<z.z1[i] * z.hr[j] + z.z2[i] * z.qt[j], 0>>, p |-> <<0, z.z2[i] * OverSin(z.tp[j], mu[j])>>],
   p |-> [r |-> <<0, z.d2[i] * z.hp[j]>>, t |-> <<0, z.z2[i] * z.qp[j]>>, p |-> <<z.z1[i] * z.hr[j] + z.z2[i] * z.pp[j], 0>>]]
Axes == {"r", "t", "p"}
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Mat(A, B) == [a \in Axes |-> [b \in Axes |-> CAdd(CAdd(CMul(A[a]["r"], B["r"][b]), CMul(A[a]["t"], B["t"][b])), CMul(A[a]["p"], B["p"][b]))]]
Tr(A) == CAdd(CAdd(A["r"]["r"], A["t"]["t"]), A["p"]["p"])
Tr2(A, B) == Tr(Mat(A, B))
Tr3(A, B, C) == Tr(Mat(A, Mat(B, C)))
\* div xi as the equation of state gives it (not the trace)
Div(z, i, j) == z.dv[i] * z.hr[j]
\* displacement over r: radial, and the transverse product of two of them
Rad(z, i, j) == z.z1[i] * z.hr[j]
Trans(y, z, i, j) == y.z2[i] * z.z2[i] * (y.ht[j] * z.ht[j] - y.hp[j] * z.hp[j])
(* --- densities of the four terms over the background: m = <<a, b, c>> --- *)
Den1(m, i, j, mu) == The({LET A == G[1] B == G[2] C == G[3] IN
   CAdd(CAdd(CMul(Tr2(A, B), <<Div(m[3], i, j), 0>>), CMul(Tr2(A, C), <<Div(m[2], i, j), 0>>)), CMul(Tr2(B, C), <<Div(m[1], i, j), 0>>))
   : G \in {<<Gradient(m[1], i, j, mu), Gradient(m[2], i, j, mu), Gradient(m[3], i, j, mu)>>}})
Den2(m, i, j, mu) == <<Div(m[1], i, j) * Div(m[2], i, j) * Div(m[3], i, j), 0>>
Den3(m, i, j, mu) == The({CAdd(Tr3(G[1], G[2], G[3]), Tr3(G[1], G[3], G[2]))
   : G \in {<<Gradient(m[1], i, j, mu), Gradient(m[2], i, j, mu), Gradient(m[3], i, j, mu)>>}})
\* two parts: radial only, and one radial with two transverse
Den4r(m, i, j) == Rad(m[1], i, j) * Rad(m[2], i, j) * Rad(m[3], i, j)
Den4t(m, i, j) == Rad(m[1], i, j) * Trans(m[2], m[3], i, j) + Rad(m[2], i, j) * Trans(m[1], m[3], i, j) + Rad(m[3], i, j) * Trans(m[1], m[2], i, j)
(* --- integrals, in units of 2 pi ---                                              *)
(* b: background: p, g (adiabatic exponent - 1), ad (density times its adiabatic     *)
(* derivative), rho (normed), d1, d2, d3: derivatives of the potential, R, np, nrho   *)
Angle(f, mu, method) == OnMesh(method, f, mu)
Radial(F, x) == Trap(F, x)
OverAngle(D(_, _), i, mu, method) == Angle([j \in DOMAIN mu |-> RInt(D(i, j))], mu, method)
\* upto: number of mesh points taken into account
Term(k, m, b, x, mu, method, upto) ==
  LET W(i) == RInt(x[i] * x[i])
      Over(D(_, _), B(_)) == Radial([i \in 1..upto |-> RMul(RMul(W(i), B(i)), OverAngle(D, i, mu, method))], [i \in 1..upto |-> RInt(x[i])])
      P3 == RInt(b.np * b.R * b.R * b.R)
      Half == <<1, 2>>
      D1(i, j) == Den1(m, i, j, mu)[1]
      D2(i, j) == Den2(m, i, j, mu)[1]
      D3(i, j) == Den3(m, i, j, mu)[1]
      E1(i, j) == Den4r(m, i, j)
      E2(i, j) == Den4t(m, i, j)
      X3(i) == x[i] * x[i] * x[i]
      r(i) == x[i] * b.R
  IN CASE k = 1 -> RMul(RMul(Half, P3), Over(D1, LAMBDA i : RInt(b.p[i] * b.g[i])))
       [] k = 2 -> RMul(RMul(Half, P3), Over(D2, LAMBDA i : RInt(b.p[i] * (b.g[i] * b.g[i] + b.ad[i]))))
       [] k = 3 -> RMul(RMul(Half, P3), Over(D3, LAMBDA i : RInt(b.p[i])))
       [] k = 4 -> RMul(RNeg(RMul(Half, RMul(P3, R(b.nrho * b.R * b.R * b.R, b.np)))),
                        RAdd(Over(E1, LAMBDA i : RInt(b.rho[i] * X3(i) * b.d3[i])),
                             Over(E2, LAMBDA i : RMul(RInt(b.rho[i] * X3(i)), RSub(R(b.d2[i], r(i)), R(b.d1[i], r(i) * r(i)))))))
\* azimuthal selection: conj is a sequence of booleans, one for each mode
Selected(m, conj) == (IF conj[1] THEN -m[1] ELSE m[1]) + (IF conj[2] THEN -m[2] ELSE m[2]) + (IF conj[3] THEN -m[3] ELSE m[3]) = 0
Kappa(k, m, b, x, mu, method, upto, az, conj) == IF Selected(az, conj) THEN Term(k, m, b, x, mu, method, upto) ELSE RInt(0)
\* energy of a mode over its squared frequency scale: (norm, energy) in units of (2 pi)^2; om: its corotating frequency, rot: rotation rate
Square(h) == [j \in DOMAIN h |-> h[j] * h[j]]
NormOf(z, b, x, mu, method) ==
  LET A(h) == Angle([j \in DOMAIN mu |-> RInt(h[j] * h[j])], mu, method)
      I(F(_)) == Radial([i \in DOMAIN x |-> RInt(x[i] * x[i] * b.rho[i] * F(i) * F(i))], [i \in DOMAIN x |-> RInt(x[i])])
  IN RAdd(RMul(A(z.hr), I(LAMBDA i : z.xz1[i])), RMul(RAdd(A(z.ht), A(z.hp)), I(LAMBDA i : z.xz2[i])))
\* Coriolis part
CoriolisOf(z, b, x, mu, method) ==
  RMul(Angle([j \in DOMAIN mu |-> RMul(RInt(z.ht[j] * z.hp[j]), mu[j])], mu, method),
       Radial([i \in DOMAIN x |-> RInt(x[i] * x[i] * b.rho[i] * z.xz2[i] * z.xz2[i])], [i \in DOMAIN x |-> RInt(x[i])]))
\* E = omega (4 Omega C + 2 omega N) rho_0 R^5, in units of (2 pi)^2
EnergyOf(z, b, x, mu, method, om, rot) ==
  RMul(RInt(om * b.nrho * b.R * b.R * b.R * b.R * b.R),
       RAdd(RMul(RInt(4 * rot), CoriolisOf(z, b, x, mu, method)), RMul(RInt(2 * om), NormOf(z, b, x, mu, method))))
=================================================================================
