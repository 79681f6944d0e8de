---------------------------------- MODULE Hough ---------------------------------
(* Angular eigenfunctions of a rotating star (traditional approximation), exact. *)
(* A function of the colatitude is s^e N(mu) / Dn(mu)^k with mu the cosine and s *)
(* the sine of the colatitude, N a polynomial with integer coefficients, and     *)
(* Dn = b^2 - a^2 mu^2 for the spin parameter nu = a / b.                        *)
(* The radial function hr = s^q p(mu), q the parity of the azimuthal order m, p  *)
(* of the parity of l - m; everything else derives from it.                      *)
EXTENDS Integers, Sequences, FiniteSets
(* --- polynomials: <<c0, c1, ...>>, no trailing zeros --- *)
RECURSIVE Cut(_)
Cut(p) == IF p = <<>> \/ p[Len(p)] # 0 THEN p ELSE Cut(SubSeq(p, 1, Len(p) - 1))
Co(p, i) == IF i \in 1..Len(p) THEN p[i] ELSE 0
Max2(a, b) == IF a > b THEN a ELSE b
PAdd(p, q) == Cut([i \in 1..Max2(Len(p), Len(q)) |-> Co(p, i) + Co(q, i)])
PScale(c, p) == Cut([i \in 1..Len(p) |-> c * p[i]])
PSub(p, q) == PAdd(p, PScale(-1, q))
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
PMul(p, q) == IF p = <<>> \/ q = <<>> THEN <<>> ELSE
  Cut([n \in 1..(Len(p) + Len(q) - 1) |-> SumTo([i \in 1..n |-> Co(p, i) * Co(q, n + 1 - i)], n)])
PDer(p) == IF Len(p) < 2 THEN <<>> ELSE Cut([i \in 1..(Len(p) - 1) |-> i * p[i + 1]])
Mu == <<0, 1>>
S2 == <<1, 0, -1>>
Dn(nu) == Cut(<<nu[2] * nu[2], 0, -(nu[1] * nu[1])>>)
(* --- functions --- *)
F(e, k, N) == [e |-> e, k |-> k, N |-> N]
Times(c, f) == F(f.e, f.k, PScale(c, f.N))
TimesMu(f) == F(f.e, f.k, PMul(Mu, f.N))
TimesS(f, n) == F(f.e + n, f.k, f.N)
\* bring to the exponents of the sine e (same parity, not larger) and of Dn k (not smaller)
RECURSIVE Power(_, _)
Power(p, n) == IF n = 0 THEN <<1>> ELSE PMul(p, Power(p, n - 1))
Bring(f, e, k, nu) == F(e, k, PMul(f.N, PMul(Power(S2, (f.e - e) \div 2), Power(Dn(nu), k - f.k))))
Min2(a, b) == IF a < b THEN a ELSE b
Plus(f, g, nu) == LET e == Min2(f.e, g.e) k == Max2(f.k, g.k) IN F(e, k, PAdd(Bring(f, e, k, nu).N, Bring(g, e, k, nu).N))
Same(f, g, nu) == LET e == Min2(f.e, g.e) k == Max2(f.k, g.k) IN (f.e - g.e) % 2 = 0 /\ Bring(f, e, k, nu).N = Bring(g, e, k, nu).N
\* derivative to mu; k = 0 stays without denominator
Der(f, nu) == IF f.k = 0 THEN F(f.e - 2, 0, PSub(PMul(S2, PDer(f.N)), PScale(f.e, PMul(Mu, f.N))))
              ELSE LET D == Dn(nu) IN
                   F(f.e - 2, f.k + 1, PSub(PMul(S2, PSub(PMul(PDer(f.N), D), PScale(f.k, PMul(f.N, PDer(D))))), PScale(f.e, PMul(Mu, PMul(f.N, D)))))
\* derivative to the colatitude
Theta(f, nu) == TimesS(Times(-1, Der(f, nu)), 1)
(* --- the eigenfunctions of a mode: c = [nu, m, p, def] --- *)
Flip(def) == def \in {"lee_saio_equivalent", "townsend"}     \* the azimuthal order counts the other way
Sin(def) == def = "townsend"                                 \* the horizontal functions are multiplied by the sine
Abs(x) == IF x < 0 THEN -x ELSE x
Hr(c) == F(Abs(c.m) % 2, 0, c.p)
\* s^2 hr'
Slope(c) == TimesS(Der(Hr(c), c.nu), 2)
\* ht = (-s^2 hr' - m nu mu hr) / (s (1 - nu^2 mu^2)), hp = (nu mu s^2 hr' + m hr) / (s (1 - nu^2 mu^2))
Ht0(c) == LET a == c.nu[1] b == c.nu[2] IN F(Hr(c).e - 1, 1, PSub(PScale(-(b * b), Slope(c).N), PScale(c.m * a * b, PMul(Mu, c.p))))
Hp0(c) == LET a == c.nu[1] b == c.nu[2] IN F(Hr(c).e - 1, 1, PAdd(PScale(a * b, PMul(Mu, Slope(c).N)), PScale(c.m * b * b, c.p)))
Ht(c) == IF Sin(c.def) THEN TimesS(Ht0(c), 1) ELSE Ht0(c)
Hp(c) == Times(IF Flip(c.def) THEN -1 ELSE 1, IF Sin(c.def) THEN TimesS(Hp0(c), 1) ELSE Hp0(c))
\* azimuthal order in the convention of the horizontal functions
Order(c) == IF Flip(c.def) THEN -c.m ELSE c.m
ThetaPhi(c) == Plus(Times(Order(c), Ht(c)), Times(-1, TimesMu(Hp(c))), c.nu)
PhiPhi(c) == TimesS(Plus(TimesMu(Ht(c)), Times(-Order(c), Hp(c)), c.nu), -1)
Outcome(c) == [hr |-> Hr(c), ht |-> Ht(c), hp |-> Hp(c), mhr |-> Times(-c.m, Hr(c)),
               theta_der_hr |-> Der(Hr(c), c.nu), theta_der2_hr |-> Der(Der(Hr(c), c.nu), c.nu), theta_der_ht |-> Der(Ht(c), c.nu), theta_der_hp |-> Der(Hp(c), c.nu),
               theta_der_hr_theta |-> Theta(Hr(c), c.nu), theta_der2_hr_theta |-> Theta(Theta(Hr(c), c.nu), c.nu), theta_der_ht_theta |-> Theta(Ht(c), c.nu),
               theta_der_hp_theta |-> Theta(Hp(c), c.nu), theta_phi |-> ThetaPhi(c), phi_phi |-> PhiPhi(c)]
Names == {"hr", "ht", "hp", "mhr", "theta_der_hr", "theta_der2_hr", "theta_der_ht", "theta_der_hp", "theta_der_hr_theta", "theta_der2_hr_theta", "theta_der_ht_theta", "theta_der_hp_theta", "theta_phi", "phi_phi"}
(* --- the tidal operator: coefficients of hr'', hr', hr --- *)
Co2(c) == F(2, 1, <<c.nu[2] * c.nu[2]>>)
Co1(c) == LET a == c.nu[1] b == c.nu[2] IN F(0, 2, Cut(<<0, -(2 * (b * b - a * a) * b * b)>>))
Co0(c) == LET a == c.nu[1] b == c.nu[2] IN
            F(-2, 2, PSub(PMul(S2, PScale(a * b * c.m, Cut(<<b * b, 0, a * a>>))), PScale(c.m * c.m * b * b, Dn(c.nu))))
Prod(f, g) == F(f.e + g.e, f.k + g.k, PMul(f.N, g.N))
Tidal(c) == LET h == Hr(c) h1 == Der(h, c.nu) h2 == Der(h1, c.nu) IN Plus(Plus(Prod(Co2(c), h2), Prod(Co1(c), h1), c.nu), Prod(Co0(c), h), c.nu)
\* horizontal divergence of the displacement
Divergence(c) == Plus(Theta(Ht0(c), c.nu), TimesS(Plus(TimesMu(Ht0(c)), Times(-c.m, Hp0(c)), c.nu), -1), c.nu)
(* --- which of the eigenvalues found belongs to the mode --- *)
\* eigs: sequence of [v |-> integer, c |-> complex?]; want: the wished-for eigenvalue
Usable(eigs) == {i \in DOMAIN eigs : ~eigs[i].c /\ eigs[i].v < 0}
Nearest(eigs, want) == {i \in Usable(eigs) : \A j \in Usable(eigs) : Abs(want - eigs[i].v) <= Abs(want - eigs[j].v)}
Wanted(l, lam, adjust) == IF lam = "none" THEN -(l * (l + 1)) ELSE 0
(* --- Legendre: without rotation the radial functions are the associated Legendre functions --- *)
Eigen(c, lambda) == Same(Tidal(c), Times(lambda, Hr(c)), c.nu)
=================================================================================
