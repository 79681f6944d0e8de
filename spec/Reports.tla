--------------------------------- MODULE Reports ---------------------------------
(* One plotting or analysis run: locate the inlist, read it, build one plotter or *)
(* analyser from its values, then make the figures, or print exactly the analyses *)
(* asked for.                                                                      *)
EXTENDS Inlist, PathResolve, TLC
VARIABLES pc, rin, told
rep == <<pc, rin, told>>
\* rin: [kind: "plot" or "analyse", argc, cands, fs, based, doc]; told: the analyses printed so far
D(r) == Read(r.doc)
On(r, p) == Truth(Lookup(D(r), p))
Stops(r) == IF Request(r.kind, r.argc, 0) = "error" THEN "RuntimeError"
            ELSE IF FirstExisting(r.cands, r.fs) = "none" THEN "FileNotFoundError"
            ELSE IF ~r.based THEN "ExceptionGroup"
            ELSE ""
\* which value of the inlist each entry of what the plotter and the analyser are given carries
SV == "save"
SP == <<"saving", "plot">>
SaveArgs == {<<"save.save_base_dir", SP \o <<"base_dir">>>>, <<"save.save_dir", SP \o <<"save_dir">>>>, <<"save.extra_specifier_save", SP \o <<"extra_specifier">>>>,
  <<"save.save_formats", SP \o <<"save_formats">>>>, <<"save.sharpness_save_name", SP \o <<"sharpness", "save_name">>>>, <<"save.sharpness_subdir", SP \o <<"sharpness", "save_subdir">>>>,
  <<"save.overview_save_name", SP \o <<"overview", "save_name">>>>, <<"save.overview_subdir", SP \o <<"overview", "save_subdir">>>>}
PL == <<"plotting">>
PlotArgs == {<<"plot.plot_overview", PL \o <<"plot", "overview">>>>, <<"plot.plot_coefficient_profile", PL \o <<"plot", "coefficient_profile">>>>,
  <<"plot.plot_resonance_sharpness", PL \o <<"plot", "resonance_sharpness">>>>, <<"plot.show_plots", PL \o <<"plot", "show">>>>, <<"plot.fig_size", PL \o <<"figure", "size">>>>,
  <<"plot.fig_dpi", PL \o <<"figure", "dpi">>>>, <<"plot.ax_label_size", PL \o <<"labels", "ax_label", "size">>>>, <<"plot.tick_label_size", PL \o <<"labels", "tick_label", "size">>>>,
  <<"plot.tick_label_pad", PL \o <<"labels", "tick_label", "pad">>>>, <<"plot.tick_size", PL \o <<"ticks", "size">>>>, <<"plot.cmap", PL \o <<"colors", "matplotlib_color_map">>>>,
  <<"plot.rad_nr", PL \o <<"misc", "rad_nr">>>>, <<"plot.verbose", <<"verbosity-debug", "verbose">>>>}
LoadKeys == {"base_file_names", "specification_names", "masses", "Xcs", "triple_pairs", "meridional_degrees", "azimuthal_orders", "file_suffix", "nr_files", "output_dir", "base_dir"}
LoadArgs == {<<"load." \o k, PL \o <<"load", k>>>> : k \in LoadKeys}
\* the standard names are used exactly when custom names are not
Standard(r) == <<"load.use_standard_format", Bool(~On(r, PL \o <<"load", "use_custom_name">>))>>
Args(r) == {<<a[1], Lookup(D(r), a[2])>> : a \in SaveArgs \cup PlotArgs \cup LoadArgs} \cup {Standard(r)}
ShowIt(r) == On(r, PL \o <<"plot", "show">>)
Analyses == {<<"numbers_categories", "generate_mode_triad_numbers_per_model">>, <<"q_Q1_condition", "generate_counts_q_quality_factor_1_condition">>,
  <<"isolated_mode_properties", "generate_isolated_triad_mode_properties">>, <<"isolated_stability_validity_estimators", "generate_isolated_triad_stab_val_estimators">>,
  <<"isolated_triad_observables", "generate_isolated_triad_observables">>}
Asked(r) == {a[2] : a \in {a \in Analyses : On(r, <<"analysis", a[1]>>)}}

Begin(r) == pc' = "asked" /\ rin' = r /\ told' = {}
Construct == pc = "asked" /\ Stops(rin) = "" /\ pc' = "built" /\ UNCHANGED <<rin, told>>
Plot == pc = "built" /\ rin.kind = "plot" /\ pc' = "plotted" /\ UNCHANGED <<rin, told>>
Show == pc = "plotted" /\ ShowIt(rin) /\ pc' = "shown" /\ UNCHANGED <<rin, told>>
Tell(a) == pc = "built" /\ rin.kind = "analyse" /\ a \in Asked(rin) \ told /\ told' = told \cup {a} /\ UNCHANGED <<pc, rin>>
Finished == /\ IF rin.kind = "plot" THEN pc = (IF ShowIt(rin) THEN "shown" ELSE "plotted") ELSE pc = "built" /\ told = Asked(rin)
            /\ pc' = "done" /\ UNCHANGED <<rin, told>>
Stop(why) == pc = "asked" /\ Stops(rin) = why /\ why # "" /\ pc' = "stopped" /\ UNCHANGED <<rin, told>>
=================================================================================
