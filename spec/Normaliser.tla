------------------------------- MODULE Normaliser -------------------------------
(* Normalisation of mode eigenfunctions: every mode is scaled so that its energy *)
(* becomes the target; when asked for, modes that are still off are refined      *)
(* again, up to a number of rounds.  e[i][k]: the energy mode i shows the k-th   *)
(* time it is looked at, as <<b, a>> for b^2 / a^2 times the target, so that the *)
(* factor it calls for is a / b.                                                 *)
EXTENDS Rational, Sequences, FiniteSets
Factor(v) == R(v[2], v[1])
OnTarget(v) == v[1] = v[2]
Seen(s, k) == s[IF k > Len(s) THEN Len(s) ELSE k]
Start(e) == [fac |-> [i \in DOMAIN e |-> Factor(Seen(e[i], 1))], cur |-> [i \in DOMAIN e |-> 2], off |-> [i \in DOMAIN e |-> ~OnTarget(Seen(e[i], 2))], it |-> 0]
Round(e, s) == [fac |-> [i \in DOMAIN e |-> IF s.off[i] THEN RMul(s.fac[i], Factor(Seen(e[i], s.cur[i]))) ELSE s.fac[i]],
                cur |-> [i \in DOMAIN e |-> IF s.off[i] THEN s.cur[i] + 1 ELSE s.cur[i]],
                off |-> [i \in DOMAIN e |-> s.off[i] /\ ~OnTarget(Seen(e[i], s.cur[i] + 1))],
                it |-> s.it + 1]
Going(s, iter, max) == iter /\ s.it < max /\ \E i \in DOMAIN s.off : s.off[i]
RECURSIVE Refine(_, _, _, _)
Refine(e, s, iter, max) == IF Going(s, iter, max) THEN Refine(e, Round(e, s), iter, max) ELSE s
Final(e, iter, max) == Refine(e, Start(e), iter, max)
=================================================================================
