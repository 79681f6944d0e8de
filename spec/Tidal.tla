----------------------------------- MODULE Tidal ----------------------------------
(* The angular part of a triad: whose eigenvalue of the tidal equations, whose     *)
(* angular functions, on which norm, and what an observer sees of each mode.       *)
(* A mode is [l, m, n2 (twice its spin factor), file (its eigenvalue in its own    *)
(* file, 0: none)].  A table holds the eigenvalues of one azimuthal order m and    *)
(* one ordering number k: [m, k, c, b], c + b n2 at n2.                            *)
EXTENDS Quadrature, TLC
IAbs(n) == IF n < 0 THEN -n ELSE n
\* ordering number of gravito-inertial modes
Order(l, m) == l - IAbs(m)
WithSign(n) == (IF n < 0 THEN "-" ELSE "+") \o ToString(IAbs(n))
NameOf(m, k) == "tar_fit.m" \o WithSign(m) \o ".k" \o WithSign(k) \o ".h5"
TableOf(mode) == NameOf(mode.m, Order(mode.l, mode.m))
At2(t, n2) == t.c + t.b * n2
Named(tables, name) == {t \in tables : NameOf(t.m, t.k) = name}
(* Where the tables are looked for: "given": a folder with the source of the table *)
(* reader in it; "nosource", "nowhere": a folder without, no folder; "none"; ""    *)
(* means the folder the environment names (env: its kind, "unset" if it is not).   *)
Usable(base, env) == base = "given" \/ (base = "" /\ env = "given")
Stopped == <<>>
\* eigenvalue of one mode in the tables
Has1(mode, tables) == Named(tables, TableOf(mode)) # {}
Value1(mode, tables) == At2(CHOOSE t \in Named(tables, TableOf(mode)) : TRUE, mode.n2)
Looked(modes, tables, base, env) == IF Usable(base, env) /\ \A i \in DOMAIN modes : Has1(modes[i], tables)
                                    THEN [i \in DOMAIN modes |-> Value1(modes[i], tables)] ELSE Stopped
\* of the modes of a triad: those of their files if all have one, else those of the tables the environment names
InFiles(modes) == \A i \in DOMAIN modes : modes[i].file # 0
Eigen(modes, tables, env) == IF InFiles(modes) THEN [i \in DOMAIN modes |-> modes[i].file] ELSE Looked(modes, tables, "", env)
\* whose functions: number of the mode and eigenvalue for which the tidal equations are solved
Whose(modes, tables, env) == LET v == Eigen(modes, tables, env) IN [i \in DOMAIN v |-> <<i, v[i]>>]
\* the norm: 2 pi times the integral of the square of the radial function over the mesh
Normed == <<1, 1>>
\* what is seen of each mode: its own functions (value, first and second derivative in mu)
Seen(fs, mu, method) == [i \in DOMAIN fs |-> <<DiscT(mu, fs[i][1], method), DiscE(mu, fs[i][2], fs[i][3], method)>>]
===================================================================================
