---------------------------------- MODULE Runner --------------------------------
(* One solver run: locate the inlist, read it, choose the kind of run, start     *)
(* exactly one solver with the values of the inlist, save the grid results.      *)
EXTENDS Inlist, PathResolve, TLC
VARIABLES pc, rin, started, saved
run == <<pc, rin, started, saved>>
\* rin: [argc, switch, cands, fs, based, doc, save]
D(r) == Read(r.doc)
On(r, p) == Truth(Lookup(D(r), p))
WantsGrid(r) == On(r, <<"computation", "compute_grid_models">>)
WantsProfile(r) == On(r, <<"computation", "compute_coefficient_profile">>)
Poly(r) == On(r, <<"coupling_coefficient", "compute_for_polytrope">>)
\* why a run stops before any computation, or "" if it does not
Stops(r) == IF Request("solve", r.argc, r.switch) = "error" THEN "RuntimeError"
            ELSE IF FirstExisting(r.cands, r.fs) = "none" THEN "FileNotFoundError"
            ELSE IF ~r.based THEN "ExceptionGroup"
            ELSE IF WantsGrid(r) = WantsProfile(r) THEN "RuntimeError"
            ELSE ""
Kind(r) == IF WantsGrid(r) THEN "grid" ELSE "profile"
\* which inlist value each constructor argument carries
ModeArgs == {<<"rot_pct", <<"rotation", "rot_percent">>>>, <<"base_dir", <<"GYRE_selection", "gyre_dir_path">>>>,
  <<"alternative_directory_path", <<"GYRE_selection", "alternative", "directory_path">>>>,
  <<"alternative_file_name", <<"GYRE_selection", "alternative", "file_name">>>>,
  <<"ad_path", <<"GYRE_selection", "specifier", "adiabatic">>>>, <<"nad_path", <<"GYRE_selection", "specifier", "nonadiabatic">>>>}
PolyArgs == {<<"rot_pct", <<"rotation", "rot_percent">>>>, <<"base_dir", <<"POLY_selection", "mode_path">>>>,
  <<"alternative_directory_path", <<"POLY_selection", "alternative", "directory_path">>>>,
  <<"alternative_file_name", <<"POLY_selection", "alternative", "file_name">>>>,
  <<"ad_path", <<"POLY_selection", "specifier", "modes">>>>, <<"nad_path", <<"nothing">>>>}
CC == "coupling_coefficient"
Common == {<<"adiabatic", <<CC, "adiabatic">>>>, <<"use_complex", <<CC, "use_complex">>>>, <<"use_symbolic_profiles", <<CC, "symbolic_profiles">>>>,
  <<"use_brunt_def", <<CC, "brunt_def_profiles">>>>, <<"use_rotating_formalism", <<"rotation", "rotating_formalism">>>>,
  <<"terms_cc_conj", <<CC, "terms_cc_conj">>>>, <<"polytrope_comp", <<CC, "compute_for_polytrope">>>>, <<"analytic_polytrope", <<CC, "analytic_polytrope">>>>,
  <<"polytrope_mass", <<"POLY_model", "mass">>>>, <<"polytrope_radius", <<"POLY_model", "radius">>>>,
  <<"numerical_integration_method", <<"computation", "integration_method">>>>, <<"use_cheby_integration", <<"computation", "angular", "use_cheby">>>>,
  <<"cheby_order_multiplier", <<"computation", "angular", "cheby_mul">>>>, <<"cheby_blow_up_protection", <<"computation", "angular", "blow_up_protect">>>>,
  <<"cheby_blow_up_factor", <<"computation", "angular", "blow_up_fac">>>>, <<"use_parallel", <<"computation", "parallel_mode_coupling">>>>,
  <<"get_debug_info", <<"verbosity-debug", "get_debug_info">>>>, <<"progress_bars", <<"computation", "display_progress">>>>}
Roles == <<"parent", "daughter_1", "daughter_2">>
NamesLM(d) == {<<d \o ".mode_" \o q \o "." \o ToString(i), <<"mode_info", Roles[i], q>>>> : q \in {"l", "m"}, i \in 1..3}
GS == "mode_selection_dict"
GridArgs == NamesLM(GS) \cup {<<GS \o ".driven_n_low", <<"mode_info", "parent", "n", "low">>>>, <<GS \o ".driven_n_high", <<"mode_info", "parent", "n", "high">>>>}
  \cup {<<GS \o ".damped_n_" \o b \o ToString(i - 1), <<"mode_info", Roles[i], "n", b>>>> : b \in {"low", "high"}, i \in 2..3}
PS == "cc_profile_selection_dict"
ProfileArgs == NamesLM(PS) \cup {<<PS \o "." \o Roles[i] \o "_n", <<"mode_info", "coupling", Roles[i], "n">>>> : i \in 1..3}
  \cup {<<"view_kernels", <<"plotting", "profile", "show_kernels">>>>, <<"view_term_by_term", <<"plotting", "profile", "show_term_by_term">>>>}
Sources(r) == Common \cup (IF Kind(r) = "grid" THEN GridArgs \cup (IF Poly(r) THEN PolyArgs ELSE ModeArgs) ELSE ProfileArgs \cup ModeArgs)
FromInlist(r) == {<<a[1], Lookup(D(r), a[2])>> : a \in Sources(r)}
Text(s) == [k |-> "", t |-> "leaf", v |-> "str:" \o s, b |-> s # "", c |-> <<>>]
Fixed(r) == {<<"toml_use", Bool(TRUE)>>, <<"inlist_path", Text(FirstExisting(r.cands, r.fs))>>}
            \cup (IF Kind(r) = "profile" THEN {<<"save_name", Text(r.save)>>} ELSE {})
SolverArgs(r) == FromInlist(r) \cup Fixed(r)
SaverSources == {<<"base_dir", <<"saving", "solve", "base_dir">>>>, <<"save_dir", <<"saving", "solve", "save_dir">>>>,
  <<"extra_specifier", <<"saving", "solve", "extra_specifier">>>>, <<"initial_save_format", <<"saving", "solve", "save_format">>>>,
  <<"polytropic", <<CC, "compute_for_polytrope">>>>}
SaverArgs(r) == {<<a[1], Lookup(D(r), a[2])>> : a \in SaverSources} \cup {<<"save_name", Text(r.save)>>}

Begin(r) == pc' = "asked" /\ rin' = r /\ started' = <<>> /\ saved' = 0
Construct(kind) == /\ pc = "asked" /\ Stops(rin) = "" /\ kind = Kind(rin)
                   /\ pc' = "constructed" /\ started' = Append(started, kind) /\ UNCHANGED <<rin, saved>>
Solve == pc = "constructed" /\ pc' = "solved" /\ UNCHANGED <<rin, started, saved>>
Prepare == pc = "solved" /\ Kind(rin) = "grid" /\ pc' = "tosave" /\ UNCHANGED <<rin, started, saved>>
Save == pc = "tosave" /\ pc' = "saved" /\ saved' = saved + 1 /\ UNCHANGED <<rin, started>>
Finished == (pc = "saved" \/ (pc = "solved" /\ Kind(rin) = "profile")) /\ pc' = "done" /\ UNCHANGED <<rin, started, saved>>
Stop(why) == pc = "asked" /\ Stops(rin) = why /\ why # "" /\ pc' = "stopped" /\ UNCHANGED <<rin, started, saved>>
=================================================================================
