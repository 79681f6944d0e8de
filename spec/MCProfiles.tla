--------------------------------- MODULE MCProfiles -------------------------------
EXTENDS Profiles, TLC, Json, IOUtils, SequencesExt, Randomization
CONSTANTS Wide, Many
(* A star whose density is a power of the radius, on a mesh which may be cut, and   *)
(* modes that obey the equations of adiabatic oscillations at every mesh point.    *)
VARIABLES stage, mesh, a, dens, gam, md, out
vars == <<stage, mesh, a, dens, gam, md, out>>
Meshes == {<<0, 1, 2, 3, 4, 5>>, <<0, 1, 2, 4, 5, 6>>} \cup (IF Wide THEN {<<0, 1, 3, 4, 6, 7>>, <<0, 2, 3, 4, 6>>} ELSE {})
Ys == IF Wide THEN {-2, 1, 3} ELSE {-2, 1}
Init == /\ stage = "whole" /\ mesh \in Meshes /\ a \in {0, 1, 2} /\ dens \in {1, 2} /\ gam \in {<<1, 1>>, <<5, 3>>}
        /\ md \in [l : {1, 2, 3}, lam : {2, -1}, om2 : {<<1, 1>>, <<9, 4>>}, y1 : Ys, y2 : Ys, As : {-1, 0, 2}]
        /\ out = <<>>
X == mesh
Rho == Times(RInt(dens), [i \in DOMAIN X |-> RPow(RInt(X[i]), a)])
Mass == Times(R(dens, a + 3), [i \in DOMAIN X |-> RPow(RInt(X[i]), a + 3)])
Pres == [i \in DOMAIN X |-> RInt(1 + (X[i] % 2))]
Grav == Times(R(dens, a + 3), [i \in DOMAIN X |-> RPow(RInt(X[i]), a + 1)])
Gam == Const(gam, X)
DRho == [i \in DOMAIN X |-> IF a = 0 THEN RInt(0) ELSE RMul(RInt(dens * a), RPow(RInt(X[i]), a - 1))]
\* by definition of the buoyancy frequency
Buoy == Minus(Prod(Grav, Sum(Quot(DRho, Rho), Quot(Prod(Rho, Grav), Prod(Gam, Pres)))))
Star == [rho |-> Rho, M |-> Mass, P |-> Pres, gam |-> Gam, N2 |-> Buoy, As |-> Const(RInt(md.As), X),
         U |-> Const(RInt(a + 3), X), c1 |-> Quot(Const(R(a + 3, dens), X), [i \in DOMAIN X |-> RPow(RInt(X[i]), a)]), V2 |-> Const(RInt(2), X)]
Waves == [y1 |-> [i \in DOMAIN X |-> RInt(md.y1 + i)], y2 |-> [i \in DOMAIN X |-> RInt(md.y2 - i)], l |-> md.l, lam |-> RInt(md.lam), om2 |-> md.om2]
Cut == stage = "whole" /\ mesh' = Inner(mesh) /\ stage' = "cut" /\ UNCHANGED <<a, dens, gam, md, out>>
Calc == /\ stage = "cut" /\ stage' = "done" /\ UNCHANGED <<mesh, a, dens, gam, md>>
        /\ \E s \in {Star}, w \in {Waves} : out' = [s |-> Structure("exact", X, RInt(1), RInt(1), s), n |-> Structure("numeric", X, RInt(1), RInt(1), s),
                                                    m |-> Mode(TRUE, X, 1, RInt(1), s, w)]
Next == Cut \/ Calc
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == stage = "done"
Per(v, k) == [i \in DOMAIN X |-> RMul(v[i], RInv(RPow(RInt(X[i]), k)))]
Same(v, w) == \A i \in DOMAIN X : v[i] = w[i]
\* the exact derivatives of the power laws
Laws == Done => /\ Same(out.s.g, Grav) /\ Same(out.s.drho, DRho)
                /\ Same(out.s.dg, Times(RInt(a + 1), Per(Grav, 1)))
                /\ Same(out.s.ddg, Times(RInt((a + 1) * a), Per(Grav, 2)))
                /\ Same(out.s.ddrho, Times(RInt(a * (a - 1)), Per(Rho, 2))) /\ Same(out.s.dddrho, Const(RInt(0), X))
                /\ \E f \in {Prod(Grav, Rho)} : /\ Same(out.s.dP, Minus(f))
                                                /\ Same(out.s.ddP, Times(RInt(-(2 * a + 1)), Per(f, 1)))
                                                /\ Same(out.s.dddP, Times(RInt(-(2 * a + 1) * 2 * a), Per(f, 2)))
\* differentiation finds polynomials up to the second degree
Numeric == Done => Same(out.n.g, Grav) /\ Same(out.n.drho, DRho) /\ (a <= 1 => Same(out.n.dg, out.s.dg) /\ Same(out.n.ddg, out.s.ddg))
(* The oscillation equations, for y1 = xi_r / r x^(2 - l) and y2 likewise            *)
XDY(i) == LET V == RMul(RInt(2), RMul(RPow(RInt(X[i]), 2), RInv(gam)))  c == RMul(md.om2, Star.c1[i])
              y1 == RInt(md.y1 + i)  y2 == RInt(md.y2 - i) IN
          <<RAdd(RMul(RSub(V, RInt(1 + md.l)), y1), RMul(RSub(RDiv(RInt(md.lam), c), V), y2)),
            RAdd(RMul(RSub(c, RInt(md.As)), y1), RMul(RInt(md.As - (a + 3) + 3 - md.l), y2))>>
\* x z1 = y1 x^(l-1) and x z2 / (c1 om^2) = y2 x^(l-1) / (c1 om^2), where d ln c1 / d ln x = 3 - U
Waving == Done => \A i \in DOMAIN X : \E e \in {XDY(i)}, f \in {RPow(RInt(X[i]), md.l - 2)}, c \in {RMul(md.om2, Star.c1[i])} :
   /\ out.m.dxz1[i] = RMul(f, RAdd(RMul(RInt(md.l - 1), RInt(md.y1 + i)), e[1]))
   /\ out.m.dxz2c[i] = RMul(RDiv(f, c), RAdd(RMul(RInt(md.l - 1 - (3 - (a + 3))), RInt(md.y2 - i)), e[2]))
\* the divergence of the displacement
Continuity == Done => \A i \in DOMAIN X : out.m.div[i] = RSub(RAdd(out.m.dxz1[i], RMul(RInt(2), out.m.z1[i])), RMul(RInt(md.lam), out.m.z2c[i]))
\* interpolation: nothing to do on the own mesh, exact for straight lines
Lines == stage = "whole" => /\ Same(On(X, Rho, X), Rho)
                            /\ \A t \in 0..X[Len(X)] : Interp(X, [i \in DOMAIN X |-> RInt(3 - 2 * X[i])], t) = RInt(3 - 2 * t)
Ends == <>Done
ASSUME Longest(<<<<1, 2>>, <<1, 2, 3>>, <<4, 5, 6>>>>) = 2
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq(RandomSubset(Many,
   [kind : {"mesa", "poly", "polynum"}, exact : BOOLEAN, brunt : BOOLEAN, longest : 0..3, smesh : {"same", "other", "alike"}, form : {"void", "complex"}, R : {1, 2, 4}, ls : [1..3 -> 1..3], om : [1..3 -> {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 2>>}], seed : 1..40])))
===================================================================================
