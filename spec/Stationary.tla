-------------------------------- MODULE Stationary ------------------------------
(* The stationary state of a triad.  Squares of the amplitudes are exact         *)
(* fractions; eta2 is the squared modulus of the coupling coefficient.           *)
(* Fixed points of the amplitude equations satisfy, for each mode i with other   *)
(* modes j, k:  A_i^2 = 4 eta2 Q_i^2 A_j^2 A_k^2 s2,  s2 = sin^2(phase) = 1/(1+q^2)*)
EXTENDS Freq
\* all arguments are rationals
SinSq(q) == RInv(RAdd(RInt(1), RMul(q, q)))
EqHolds(aI, aJ, aK, Q, q, eta2) == aI = RMul(RMul(RInt(4), eta2), RMul(RMul(Q, Q), RMul(RMul(aJ, aK), SinSq(q))))
SolvesAmplitudeEquations(a, Q, q, eta2) ==
  /\ EqHolds(a[1], a[2], a[3], Q[1], q, eta2)
  /\ EqHolds(a[2], a[1], a[3], Q[2], q, eta2)
  /\ EqHolds(a[3], a[1], a[2], Q[3], q, eta2)
\* the only non-zero solution
Prefactor(q, eta2) == RDiv(RAdd(RInt(1), RMul(q, q)), RMul(RInt(4), eta2))
Solution(Q, q, eta2) ==
  LET p == Prefactor(q, eta2)
  IN << RDiv(p, RMul(Q[2], Q[3])), RNeg(RDiv(p, RMul(Q[1], Q[3]))), RNeg(RDiv(p, RMul(Q[1], Q[2]))) >>
QCrit(s) == R(Detuning(s), gam[2] + gam[3])
CritSq(Q, qc, eta2) == RDiv(Prefactor(qc, eta2), RMul(Q[2], Q[3]))
\* response of the luminosity: |tk * lum - ek * xi|, times the visibility at the observer
Response(tk, lum, ek, xi) == RAbs(tk * lum - ek * xi)
=================================================================================
