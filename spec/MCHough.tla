---------------------------------- MODULE MCHough -------------------------------
(* The laws of the angular eigenfunctions, for every radial function of a small  *)
(* degree: horizontal momentum, horizontal divergence = tidal operator, parity   *)
(* of every function, and the Legendre functions without rotation.               *)
EXTENDS Hough, TLC, Json, IOUtils, SequencesExt, Randomization
CONSTANTS Coef, Deg, Many
VARIABLES nu, m, p, def
Nus == {<<0, 1>>, <<1, 2>>, <<-1, 2>>, <<3, 2>>, <<-2, 1>>, <<3, 1>>}
Ms == {-3, -2, -1, 0, 1, 2, 3}
Defs == {"prat", "lee_saio_equivalent", "townsend"}
\* polynomials of one parity
Poly(par, cs) == Cut([i \in 1..(2 * Len(cs)) |-> IF i % 2 = 1 - par THEN cs[(i + 1) \div 2] ELSE 0])
Range0 == {-1, 1, 2} \cup {-Coef, Coef}
Lists == UNION {[1..n -> {0} \cup Range0] : n \in 1..Deg}
Init == nu \in Nus /\ m \in Ms /\ def \in Defs /\ p \in {Poly(par, cs) : par \in 0..1, cs \in {q \in Lists : q[Len(q)] # 0}}
Next == UNCHANGED <<nu, m, p, def>>
Spec == Init /\ [][Next]_<<nu, m, p, def>>
C == [nu |-> nu, m |-> m, p |-> p, def |-> def]
Momentum == LET H == Hr(C) S == Theta(H, nu) NuMu(f) == F(f.e, f.k, PScale(nu[1], PMul(Mu, f.N))) IN
   /\ Same(Plus(Times(nu[2], Ht0(C)), NuMu(Hp0(C)), nu), Times(nu[2], S), nu)
   /\ Same(Plus(Times(nu[2], Hp0(C)), NuMu(Ht0(C)), nu), Times(nu[2] * m, TimesS(H, -1)), nu)
Law == Same(Divergence(C), Tidal(C), nu)
LawHere == ~Sin(def) => Same(Plus(Theta(Ht(C), nu), PhiPhi(C), nu), Tidal(C), nu)
ParOf(f) == IF f.N = <<>> THEN -1 ELSE (Len(f.N) - 1) % 2
Pure(f) == \A i \in DOMAIN f.N : f.N[i] # 0 => (i - 1) % 2 = ParOf(f)
Even == {"hr", "hp", "mhr", "theta_der2_hr", "theta_der_ht", "theta_der2_hr_theta", "theta_der_ht_theta", "phi_phi"}
Parity == LET O == Outcome(C) k == ParOf(O.hr) IN
   \A f \in Names : /\ Pure(O[f])
                    /\ O[f].N # <<>> => ParOf(O[f]) = (IF f \in Even THEN k ELSE 1 - k)
\* in the two definitions without the sine the azimuthal terms agree up to the overall sign of the azimuthal direction
Mirror == LET A == [C EXCEPT !.def = "prat"] B == [C EXCEPT !.def = "lee_saio_equivalent"] IN
   /\ PhiPhi(A) = PhiPhi(B) /\ ThetaPhi(A) = Times(-1, ThetaPhi(B)) /\ Hp(A) = Times(-1, Hp(B))
\* Legendre
Still(q, mm, lam) == Eigen([nu |-> <<0, 1>>, m |-> mm, p |-> q, def |-> "prat"], lam)
ASSUME Still(<<1>>, 0, 0) /\ Still(<<0, 1>>, 0, -2) /\ Still(<<1>>, 1, -2) /\ Still(<<-1, 0, 3>>, 0, -6) /\ Still(<<0, 1>>, -1, -6) /\ Still(<<1, 0, -1>>, 2, -6)
       /\ Still(<<0, -3, 0, 5>>, 0, -12) /\ Still(<<-1, 0, 5>>, 1, -12) /\ Still(<<0, 1, 0, -1>>, -2, -12) /\ Still(<<1, 0, -1>>, 3, -12)
       /\ ~Still(<<1, 0, 3>>, 0, -6) /\ ~Still(<<0, 1>>, 1, -2)
\* scenarios
Want == {"none", "some", "raw"}
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq(RandomSubset(Many, [nu : Nus, m : Ms, k : 0..4, def : Defs, want : Want, eigs : 1..4, n : 12..16])))
=================================================================================
