--------------------------------- MODULE Rational -------------------------------
(* Exact fractions <<num, den>>, den > 0, in lowest terms.  Arguments are bound  *)
(* through one-element sets so that TLC evaluates each of them once.             *)
EXTENDS Integers
RECURSIVE RGcd(_, _)
RGcd(a, b) == IF b = 0 THEN a ELSE RGcd(b, a % b)
RAbs(x) == IF x < 0 THEN -x ELSE x
The(S) == CHOOSE x \in S : TRUE
RLow(n, d, g) == IF n = 0 THEN <<0, 1>> ELSE IF d < 0 THEN <<-(n \div g), (-d) \div g>> ELSE <<n \div g, d \div g>>
R(n, d) == The({RLow(p[1], p[2], RGcd(RAbs(p[1]), RAbs(p[2]))) : p \in {<<n, d>>}})
RMul(a, b) == The({The({<<x[1] * y[1], x[2] * y[2]>> : x \in {R(p[1][1], p[2][2])}, y \in {R(p[2][1], p[1][2])}}) : p \in {<<a, b>>}})
RNeg(a) == The({<<-x[1], x[2]>> : x \in {a}})
RInv(a) == The({R(x[2], x[1]) : x \in {a}})
RDiv(a, b) == RMul(a, RInv(b))
RAdd(a, b) == The({LET g == RGcd(p[1][2], p[2][2]) IN R(p[1][1] * (p[2][2] \div g) + p[2][1] * (p[1][2] \div g), p[1][2] * (p[2][2] \div g)) : p \in {<<a, b>>}})
RSub(a, b) == RAdd(a, RNeg(b))
RInt(n) == <<n, 1>>
RLess(a, b) == RSub(a, b)[1] < 0
RLeq(a, b) == RSub(a, b)[1] <= 0
=================================================================================
