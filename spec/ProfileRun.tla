-------------------------------- MODULE ProfileRun -------------------------------
(* One run of the profile program: the coupling of one triad, accumulated over    *)
(* the star, its figures, and the report on it.                                    *)
EXTENDS Adjusted, TLC
RECURSIVE Join(_, _)
Join(s, sep) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o sep \o Join(Tail(s), sep)
Nums(s) == Join([i \in DOMAIN s |-> ToString(s[i])], "_")
\* r: n, l, m of the modes, save, words (that select the structure), pct
Folder(r) == "figure_output/profiles_isolated_mode_triads/" \o (IF Len(r.words) < 2 THEN "" ELSE Join(SubSeq(r.words, 1, Len(r.words) - 1), "/") \o "/") \o "rot_" \o r.pct
Tail3(r) == "_" \o r.save \o "_n" \o Nums(r.n) \o "_l" \o Nums(r.l) \o "_m" \o Nums(r.m)
FileOf(r, sub, base, ext) == [dir |-> Folder(r) \o "/" \o sub, name |-> base \o Tail3(r) \o "." \o ext, fmt |-> ext]
Whole(r) == FileOf(r, "coupling_coefficient", "cc_profile_single", "pdf")
Masked(r) == FileOf(r, "coupling_coefficient", "cc_profile", "png")
ByTerm(r) == FileOf(r, "coupling_coefficient_contributions", "cc_contributions_profile", "png")
Kernels == {[what |-> w, nr |-> k] : w \in {"angular", "radial"}, k \in 1..4}
SameModes(r) == r.n[2] = r.n[3] /\ r.l[2] = r.l[3] /\ r.m[2] = r.m[3]
(* the run, step by step; v: where the approximation holds (<<>>: the run is stopped there) *)
Begun == [stage |-> "couple", files |-> {}, told |-> {}, kernels |-> {}, shown |-> 0]
Going(st) == st.stage \notin {"stopped", "over"}
Stage(st, r, v) ==
  CASE st.stage = "couple" -> [st EXCEPT !.stage = IF r.coupled THEN "zones" ELSE "stopped"]
    [] st.stage = "zones" -> [st EXCEPT !.stage = IF v = <<>> THEN "stopped" ELSE "figures"]
    [] st.stage = "figures" -> [st EXCEPT !.stage = "report", !.files = @ \union {Whole(r), Masked(r)}]
    [] st.stage = "report" -> [st EXCEPT !.stage = "terms", !.told = @ \union {"total"}]
    [] st.stage = "terms" -> [st EXCEPT !.stage = "kernels", !.files = IF r.terms THEN @ \union {ByTerm(r)} ELSE @, !.told = IF r.terms THEN @ \union {"terms"} ELSE @]
    [] st.stage = "kernels" -> [st EXCEPT !.stage = "show", !.kernels = IF r.kernels THEN Kernels ELSE @]
    [] st.stage = "show" -> [st EXCEPT !.stage = "over", !.shown = @ + 1]
RECURSIVE Finally(_, _, _)
Finally(st, r, v) == IF Going(st) THEN Finally(Stage(st, r, v), r, v) ELSE st
\* shaded zones of a figure: first and last point
Shaded(v) == {<<p[1] - 1, p[2] - 1>> : p \in RunsOf(v, TRUE)}
=================================================================================
