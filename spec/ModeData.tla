---------------------------------- MODULE ModeData --------------------------------
(* Preparation of the data of modes: complex quantities put together from their    *)
(* parts, profiles cut to the same mesh, units named.                              *)
EXTENDS Integers, Sequences, FiniteSets
\* elements of a sequence taken from lo up to, not including, hi, every step; None: up to the end
None == 99
Low(n, a) == IF a = None THEN 0 ELSE IF a < 0 THEN (IF n + a < 0 THEN 0 ELSE n + a) ELSE IF a > n THEN n ELSE a
High(n, b) == IF b = None THEN n ELSE Low(n, b)
Taken(v, c) == LET a == Low(Len(v), c.lo)  b == High(Len(v), c.hi)  k == IF b <= a THEN 0 ELSE (b - a + c.step - 1) \div c.step IN [i \in 1..k |-> v[a + (i - 1) * c.step + 1]]
(* The groups of profiles that are cut together.                                   *)
Modes(names) == {n \o "_mode_" \o k : n \in names, k \in {"1", "2", "3"}}
Eigen == {"_xi_h", "_xi_r", "_y_1", "_y_2"}
Group(name, poly) ==
  CASE name = "structure_coefficient_cuts" /\ ~poly -> {"_c_1", "_V_2", "_As", "_U"}
    [] name = "polytropic_cuts" /\ ~poly -> Modes(Eigen)
    [] name = "mesa_gyre_cuts" /\ ~poly -> Modes(Eigen \cup {"_eul_phi", "_deul_phi"}) \cup {"_gamma_1_adDer_profile"}
    [] name = "pre_profile_load_cuts" -> IF poly THEN {"_x", "_mr_profile", "_rho_profile", "_r_profile", "_p_profile", "_Gamma_1", "_brunt_n2_profile"}
                                         ELSE {"_x", "_M_r", "_rho", "_P", "_Gamma_1", "_brunt_N2_profile"}
    [] name = "profile_load_cuts_analytic" /\ poly -> {"_x", "_mr_profile", "_rho_profile", "_r_profile", "_p_profile", "_Gamma_1", "_brunt_n2_profile", "_drho", "_drho2", "_drho3",
                                                       "_dP", "_dP2", "_dP3", "_dgravpot", "_dgravpot2", "_dgravpot3"}
    [] OTHER -> {}                  \* there is no such group
Known(name, poly) == Group(name, poly) # {}
\* the profiles after a cut
CutAll(obj, names, c) == [k \in DOMAIN obj |-> IF k \in names THEN Taken(obj[k], c) ELSE obj[k]]
(* Complex numbers <<re, im>> of the parts, in units d (one for all, or one each).  *)
Joined(re, im, d) == [i \in DOMAIN re |-> LET u == IF Len(d) = 1 THEN d[1] ELSE d[i] IN <<re[i] * u, im[i] * u>>]
Unit(text) == CASE text = "CYC_PER_DAY" -> "d$^{-1}$" [] text = "HZ" -> "Hz" [] text = "UHZ" -> "$\\mu$Hz" [] text = "RAD_PER_SEC" -> "rad s$^{-1}$" [] OTHER -> ""
===================================================================================
