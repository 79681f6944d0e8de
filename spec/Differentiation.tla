----------------------------- MODULE Differentiation ----------------------------
(* Numerical differentiation: at every mesh point the derivative of the          *)
(* polynomial through a window of neighbouring points.  x, y: integers.          *)
EXTENDS Rational, Sequences
RECURSIVE DD(_, _, _, _), Pi(_, _, _, _), DSum(_, _, _, _, _, _)
\* divided difference of y over the nodes a..b
DD(x, y, a, b) == IF a = b THEN RInt(y[a]) ELSE RDiv(RSub(DD(x, y, a + 1, b), DD(x, y, a, b - 1)), RInt(x[b] - x[a]))
\* m-th derivative at t of the product of (t - x[j]) over the first k nodes of w
Pi(x, w, k, mt) == IF mt[1] < 0 THEN 0 ELSE IF k = 0 THEN (IF mt[1] = 0 THEN 1 ELSE 0)
                   ELSE (mt[2] - x[w[k]]) * Pi(x, w, k - 1, mt) + mt[1] * Pi(x, w, k - 1, <<mt[1] - 1, mt[2]>>)
\* w: the nodes of a window, in order
Sub(s, w) == [k \in DOMAIN w |-> s[w[k]]]
DSum(x, y, w, m, t, k) == IF k > Len(w) THEN RInt(0)
                          ELSE RAdd(RMul(DD(Sub(x, w), Sub(y, w), 1, k), RInt(Pi(x, w, k - 1, <<m, t>>))), DSum(x, y, w, m, t, k + 1))
Derivative(x, y, w, m, t) == DSum(x, y, w, m, t, 1)

Run(a, b) == [k \in 1..(b - a + 1) |-> a + k - 1]
\* the window of point i of n points; the empty one where the method says nothing
Gradient(edge, i, n) == IF i \in 2..(n - 1) THEN Run(i - 1, i + 1)
                        ELSE IF i = 1 THEN Run(1, edge + 1) ELSE Run(n - edge, n)
Fornberg(acc, i, n) == LET mid == (acc + 1) \div 2  end == acc \div 2 IN
                       IF i <= mid THEN Run(1, acc + 1) ELSE IF i > n - end THEN Run(n - acc, n) ELSE Run(i - mid, i + end)
Stencil(type, ord, i, n) == CASE type = "forward" -> IF i < n THEN Run(i, i + 1) ELSE <<>>
                              [] type = "backward" -> IF i > 1 THEN Run(i - 1, i) ELSE <<>>
                              [] type = "center" /\ ord = 1 -> IF i \in 2..(n - 1) THEN <<i - 1, i + 1>> ELSE <<>>
                              [] type = "center" /\ ord = 2 -> IF i \in 3..(n - 2) THEN Run(i - 2, i + 2) ELSE <<>>
Window(q, i, n) == CASE q.name = "gradient" -> Gradient(q.ord, i, n)
                     [] q.name = "fornberg" -> Fornberg(q.ord, i, n)
                     [] OTHER -> Stencil(q.name, q.ord, i, n)
\* the highest degree of polynomial for which the window is exact, at its own point
Exactness(q, n) == CASE q.name = "gradient" -> q.ord
                     [] q.name = "fornberg" -> q.ord
                     [] q.name = "center" -> IF q.ord = 1 THEN 1 ELSE 4
                     [] OTHER -> 1
Need(q) == CASE q.name = "gradient" -> q.ord + 1 [] q.name = "fornberg" -> q.ord + 1 [] q.name = "center" -> 2 * q.ord + 1 [] OTHER -> 2
\* orders of the derivative which the method provides
Orders(q) == IF q.name = "fornberg" THEN 1..q.ord ELSE {1}

(* --- internal refinement: every cell is cut in f parts, on which y is linear --- *)
\* in units of 1 / f for both coordinates
Refined(s, f) == [k \in 1..((Len(s) - 1) * f + 1) |-> LET c == (k - 1) \div f  r == (k - 1) % f IN
                  f * s[c + 1] + (IF r = 0 THEN 0 ELSE r * (s[c + 2] - s[c + 1]))]
RECURSIVE PowI(_, _)
PowI(b, n) == IF n = 0 THEN 1 ELSE b * PowI(b, n - 1)
AtMesh(q, m, x, y, f, i) == IF f = 1 THEN Derivative(x, y, Window(q, i, Len(x)), m, x[i])
   ELSE The({RMul(Derivative(xf, yf, Window(q, (i - 1) * f + 1, Len(xf)), m, f * x[i]), RInt(PowI(f, m - 1))) : xf \in {Refined(x, f)}, yf \in {Refined(y, f)}})
Covered(q, n, f, i) == Window(q, IF f = 1 THEN i ELSE (i - 1) * f + 1, IF f = 1 THEN n ELSE (n - 1) * f + 1) # <<>>
=================================================================================
