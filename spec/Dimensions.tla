-------------------------------- MODULE Dimensions ------------------------------
(* What happens to every quantity of an oscillation-mode file: complex quantities *)
(* are put together from their two fields, quantities in cgs are brought to SI    *)
(* when asked, and the dimensionless ones of the oscillation code get their       *)
(* dimensions back.  The factor follows from the physical dimensions of the       *)
(* quantity: mass, length, time, through M, R and G.                              *)
EXTENDS Rational, Sequences
\* stellar properties of the file, and what one cgs unit is in SI: mass, length, time exponents
Base == [M_star |-> <<1, 0, 0>>, R_star |-> <<0, 1, 0>>, L_star |-> <<1, 2, -3>>, M_r |-> <<1, 0, 0>>, P |-> <<1, -1, -2>>, rho |-> <<1, -3, 0>>]
\* quantities the code gives per unit of M, R, G
Mech == [xi_r |-> <<0, 1, 0>>, xi_h |-> <<0, 1, 0>>, xi_r_ref |-> <<0, 1, 0>>, xi_h_ref |-> <<0, 1, 0>>, lag_S |-> <<0, 1, 0>>, lag_S_ref |-> <<0, 1, 0>>,
         eul_phi |-> <<0, 2, -2>>, eul_phi_ref |-> <<0, 2, -2>>, deul_phi |-> <<0, 1, -2>>, deul_phi_ref |-> <<0, 1, -2>>,
         Omega_rot |-> <<0, 0, -1>>, Delta_p |-> <<0, 0, -1>>, Delta_g |-> <<0, 0, -1>>,
         E |-> <<1, 2, 0>>, E_p |-> <<1, 2, 0>>, E_g |-> <<1, 2, 0>>, dE_dx |-> <<1, 2, 0>>,
         H |-> <<1, 2, -2>>, W |-> <<1, 2, -2>>, W_eps |-> <<1, 2, -2>>, tau_ss |-> <<1, 2, -2>>, tau_tr |-> <<1, 2, -2>>,
         dW_dx |-> <<1, 2, -2>>, dW_eps_dx |-> <<1, 2, -2>>, dtau_ss_dx |-> <<1, 2, -2>>, dtau_tr_dx |-> <<1, 2, -2>>]
\* relative to a profile or to the luminosity of the star
Local == [eul_P |-> "P", lag_P |-> "P", eul_rho |-> "rho", lag_rho |-> "rho", eul_T |-> "T", lag_T |-> "T", lag_L |-> "L_star", lag_L_ref |-> "L_star"]
Complex == {"xi_r", "xi_h", "xi_r_ref", "xi_h_ref", "eul_phi", "eul_phi_ref", "deul_phi", "deul_phi_ref", "lag_S", "lag_S_ref", "lag_L", "lag_L_ref",
            "eul_P", "eul_rho", "eul_T", "lag_P", "lag_rho", "lag_T", "omega", "y_1", "y_2", "y_3", "y_4", "y_5", "y_6", "freq", "l_i", "lambda",
            "omega_int", "dzeta_dx", "Yt_1", "Yt_2", "I_0", "I_1", "dbeta_dx"}
\* exponents, doubled, of G, M and R in the factor: time comes from G alone
TwoG(d) == -d[3]
TwoM(d) == 2 * d[1] + TwoG(d)
TwoR(d) == 2 * d[2] - 3 * TwoG(d)
RECURSIVE Pw(_, _)
Pw(x, k) == IF k = 0 THEN RInt(1) ELSE IF k < 0 THEN RInv(Pw(x, -k)) ELSE RMul(x, Pw(x, k - 1))
Ten(k) == Pw(RInt(10), k)
\* one cgs unit of such a quantity in SI: grams and centimetres
ExpSI(d) == -(3 * d[1] + 2 * d[2])
ToSI(d) == Ten(ExpSI(d))
Unit(k, si) == IF si /\ k \in DOMAIN Base THEN ToSI(Base[k]) ELSE RInt(1)
\* squared factor without its power of G
Factor2(d, M, R0) == RMul(Pw(M, TwoM(d)), Pw(R0, TwoR(d)))
HasDim(k) == k \in DOMAIN Mech \union DOMAIN Local
(* the life of a quantity: read, converted, dimensioned; each exactly once *)
Stages == <<"read", "converted", "dimensioned">>
=================================================================================
