-------------------------------- MODULE TriadGate -------------------------------
(* The admission of a mode triad: selection rules, linear-stability scenario and *)
(* stability of the fixed point.  Rates are integers (any common unit), the      *)
(* detuning ratio q is the fraction qn/qd.  A triad passes through the gate in   *)
(* four steps; the verdict may be announced only after all of them.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Abs(x) == IF x < 0 THEN -x ELSE x

(* ------------------------- selection rules ---------------------------------- *)
\* modes: sequence of <<l, m>>; triad: three mode numbers; conj: three booleans
Signed(m, barred) == IF barred THEN -m ELSE m
AzimuthalRule(modes, triad, conj) ==
  Signed(modes[triad[1]][2], conj[1]) + Signed(modes[triad[2]][2], conj[2]) + Signed(modes[triad[3]][2], conj[3]) = 0
Meridional(lm) == lm[1] - Abs(lm[2])
MeridionalOrders(modes, triad) == [i \in 1..3 |-> Meridional(modes[triad[i]])]
MeridionalRule(modes, triad) ==
  (Meridional(modes[triad[1]]) + Meridional(modes[triad[2]]) + Meridional(modes[triad[3]])) % 2 = 0
DefaultConj == <<TRUE, FALSE, FALSE>>
Selected(modes, triad, conj) == AzimuthalRule(modes, triad, conj) /\ MeridionalRule(modes, triad)

(* ------------------------- linear scenarios --------------------------------- *)
Parametric(g) == g[1] > 0 /\ g[2] < 0 /\ g[3] < 0
Direct(g) == g[1] < 0 /\ g[2] > 0 /\ g[3] > 0
Driven(g) == g[1] > 0 /\ g[2] > 0 /\ g[3] > 0

(* ------------------------- stability of the fixed point --------------------- *)
GSum(g) == g[1] + g[2] + g[3]
SumStable(g) == GSum(g) < 0
\* the quartic condition, multiplied by qd^4 and by -GSum^3 (positive when SumStable)
Quartic(g, qn, qd) ==
  LET s == GSum(g)
      s3 == s * s * s
      dot == g[1] * g[2] * g[3]
      two == (g[1] * g[2] + g[1] * g[3] + g[2] * g[3]) * s
      n2 == qn * qn   d2 == qd * qd
  IN -( (2 * dot - s3) * d2 * d2 + (2 * s3 + 12 * dot - 4 * two) * n2 * d2 + (18 * dot + 3 * s3 - 12 * two) * n2 * n2 )
\* for a driven parent with sum > 0 the same polynomial is compared after division by the cube of the sum
QuarticHolds(g, qn, qd) ==       \* the corrected condition divides by the positive parent rate
  Quartic(g, qn, qd) > 0
ThreeModeStable(g, qn, qd) == SumStable(g) /\ QuarticHolds(g, qn, qd)
\* two equal daughters, theta = -g2/g1:  theta > (1+sqrt 3)/2  and  q^2 > (2t(t-1)+1)/(2t(t-1)-1)
\* written without roots or division, with tn/td = theta and td > 0
ThetaP(g) == IF g[1] > 0 THEN <<-g[2], g[1]>> ELSE <<g[2], -g[1]>>
TwoBase(g) == LET t == ThetaP(g) IN 2 * t[1] * (t[1] - t[2])      \* 2t(t-1) td^2
ThetaOk(g) == LET t == ThetaP(g) IN t[1] > 0 /\ 2 * t[1] > t[2] /\ TwoBase(g) > t[2] * t[2]
TwoModeParametricStable(g, qn, qd) ==
  LET t == ThetaP(g)  d2 == t[2] * t[2]
  IN ThetaOk(g) /\ qn * qn * (TwoBase(g) - d2) > qd * qd * (TwoBase(g) + d2)
\* what the code does instead (recorded finding): numerator and denominator swapped
TwoModeSwapped(g, qn, qd) ==
  LET t == ThetaP(g)  d2 == t[2] * t[2]
  IN ThetaOk(g) /\ qn * qn * (TwoBase(g) + d2) > qd * qd * (TwoBase(g) - d2)
TwoModeDirectStable(g) == LET t == ThetaP(g) IN 2 * t[1] < t[2]

LinearlyStable(g, qn, qd, two) ==
  IF Parametric(g) THEN (IF two THEN TwoModeParametricStable(g, qn, qd) ELSE ThreeModeStable(g, qn, qd))
  ELSE IF Direct(g) /\ two THEN TwoModeDirectStable(g)
  ELSE FALSE

(* ------------------------- the linearised flow ------------------------------ *)
\* Jacobian of (ln A1, ln A2, ln A3, phase) in the fixed point, times qd; it has the
\* same spectrum, cycle products and determinant as the one in (A1, A2, A3, phase).
Jac4(g, qn, qd) ==
  LET s == GSum(g)
  IN << << g[1]*qd, -g[1]*qd, -g[1]*qd, g[1]*qn >>,
        << -g[2]*qd, g[2]*qd, -g[2]*qd, g[2]*qn >>,
        << -g[3]*qd, -g[3]*qd, g[3]*qd, g[3]*qn >>,
        << qn*(s-2*g[1]), qn*(s-2*g[2]), qn*(s-2*g[3]), s*qd >> >>
Jac3(g, qn, qd) ==      \* one daughter mode counted twice: g[3] = g[2]
  << << g[1]*qd, -2*g[1]*qd, g[1]*qn >>,
     << -g[2]*qd, 0, g[2]*qn >>,
     << qn*(2*g[2]-g[1]), 2*qn*g[1], (g[1]+2*g[2])*qd >> >>
RECURSIVE CycleProduct(_, _, _)
CycleProduct(J, c, k) == IF k = Len(c) THEN J[c[k]][c[1]] ELSE J[c[k]][c[k+1]] * CycleProduct(J, c, k + 1)
\* coefficients of det(xI - J) = x^n + a[n-1] x^(n-1) + ... + a[0]
Minor2(J, i, j) == J[i][i] * J[j][j] - J[i][j] * J[j][i]
Det3(J, i, j, k) ==
  J[i][i] * Minor2(J, j, k) - J[i][j] * (J[j][i] * J[k][k] - J[j][k] * J[k][i]) + J[i][k] * (J[j][i] * J[k][j] - J[j][j] * J[k][i])
Cof(J, r, c) ==   \* 3x3 minor of a 4x4 without row r, column c
  LET R == SelectSeq(<<1,2,3,4>>, LAMBDA x : x # r)  C == SelectSeq(<<1,2,3,4>>, LAMBDA x : x # c)
      M(i, j) == J[R[i]][C[j]]
  IN M(1,1)*(M(2,2)*M(3,3)-M(2,3)*M(3,2)) - M(1,2)*(M(2,1)*M(3,3)-M(2,3)*M(3,1)) + M(1,3)*(M(2,1)*M(3,2)-M(2,2)*M(3,1))
Det4(J) == J[1][1]*Cof(J,1,1) - J[1][2]*Cof(J,1,2) + J[1][3]*Cof(J,1,3) - J[1][4]*Cof(J,1,4)
Det2(J) == J[1][1]*J[2][2] - J[1][2]*J[2][1]
\* Routh-Hurwitz
Stable3(J) ==
  LET a2 == -(J[1][1]+J[2][2]+J[3][3])
      a1 == Minor2(J,1,2)+Minor2(J,1,3)+Minor2(J,2,3)
      a0 == -Det3(J,1,2,3)
  IN a2 > 0 /\ a0 > 0 /\ a2 * a1 > a0
Stable4(J) ==
  LET a3 == -(J[1][1]+J[2][2]+J[3][3]+J[4][4])
      a2 == Minor2(J,1,2)+Minor2(J,1,3)+Minor2(J,1,4)+Minor2(J,2,3)+Minor2(J,2,4)+Minor2(J,3,4)
      a1 == -(Det3(J,1,2,3)+Det3(J,1,2,4)+Det3(J,1,3,4)+Det3(J,2,3,4))
      a0 == Det4(J)
  IN a3 > 0 /\ a0 > 0 /\ a3 * a2 > a1 /\ a1 * (a3 * a2 - a1) > a3 * a3 * a0

(* ------------------------- passage through the gate ------------------------- *)
VARIABLES tr, az, mer, lin, verdict, pc
gate == <<tr, az, mer, lin, verdict, pc>>
Enter(t) == tr' = t /\ az' = "?" /\ mer' = "?" /\ lin' = "?" /\ verdict' = "?" /\ pc' = "az"
B(x) == IF x THEN "T" ELSE "F"
CheckAz == pc = "az" /\ az' = B(AzimuthalRule(tr.modes, <<1, 2, 3>>, tr.conj)) /\ pc' = "mer" /\ UNCHANGED <<tr, mer, lin, verdict>>
CheckMer == pc = "mer" /\ mer' = B(MeridionalRule(tr.modes, <<1, 2, 3>>)) /\ pc' = "lin" /\ UNCHANGED <<tr, az, lin, verdict>>
CheckLin == pc = "lin" /\ lin' = B(LinearlyStable(tr.g, tr.qn, tr.qd, tr.two)) /\ pc' = "decide" /\ UNCHANGED <<tr, az, mer, verdict>>
Decide == pc = "decide" /\ verdict' = B(az = "T" /\ mer = "T" /\ lin = "T") /\ pc' = "done" /\ UNCHANGED <<tr, az, mer, lin>>

\* both selection rules observed as one step (they are announced together)
CheckGeneric == /\ pc = "az" /\ az' = B(AzimuthalRule(tr.modes, <<1, 2, 3>>, tr.conj))
                /\ mer' = B(MeridionalRule(tr.modes, <<1, 2, 3>>)) /\ pc' = "lin" /\ UNCHANGED <<tr, lin, verdict>>
\* the last two steps observed as one
LinAndDecide == /\ pc = "lin" /\ lin' = B(LinearlyStable(tr.g, tr.qn, tr.qd, tr.two))
                /\ verdict' = B(az = "T" /\ mer = "T" /\ lin' = "T") /\ pc' = "done" /\ UNCHANGED <<tr, az, mer>>

AdmittedOnlyWhenAllowed ==
  verdict = "T" => /\ Selected(tr.modes, <<1, 2, 3>>, tr.conj)
                   /\ Parametric(tr.g) \/ (Direct(tr.g) /\ tr.two)
                   /\ SumStable(tr.g) \/ tr.two
OneScenario == pc # "idle" => Cardinality({s \in {1, 2, 3} : CASE s = 1 -> Parametric(tr.g) [] s = 2 -> Direct(tr.g) [] OTHER -> Driven(tr.g)}) <= 1
=================================================================================
