---------------------------------- MODULE Folders --------------------------------
(* Where a run finds its models: from the settings of an inlist (or a file of      *)
(* lines, each with its label) to the files that are read for a triad.             *)
EXTENDS Models, TLC
Row(n, lb, p, fl) == [name |-> n, label |-> lb, path |-> p, flag |-> fl]
Rows == <<
  Row("base_dir", "MESA base folder/directory", "MESA.default.base_dir", ""),
  Row("mesa_output_dir", "MESA default output folder/directory", "MESA.default.output_dir", ""),
  Row("mesa_profile_substrings", "MESA default profile substrings", "MESA.selection.substrings", "MESA.selection.substrings_to_tuple"),
  Row("mesa_suffix", "MESA default suffix", "MESA.selection.suffix", ""),
  Row("gyre_base_dir", "GYRE base folder/directory", "GYRE.default.base_dir", ""),
  Row("gyre_output_dir", "GYRE default output folder/directory", "GYRE.default.output_dir", ""),
  Row("gyre_detail_substring", "GYRE default detail substring", "GYRE.selection.detail_substrings", "GYRE.selection.detail_substrings_to_tuple"),
  Row("gyre_summary_substring", "GYRE default summary substring", "GYRE.selection.summary_substring", ""),
  Row("poly_base_dir", "POLYTROPE structure base folder/directory", "POLY.structure.default.base_dir", ""),
  Row("poly_struct_dir", "POLYTROPE structure default output folder/directory", "POLY.structure.default.output_dir", ""),
  Row("poly_struct_substrings", "POLYTROPE default structure substrings", "POLY.structure.selection.substrings", "POLY.structure.selection.substrings_to_tuple"),
  Row("poly_struct_suffix", "POLYTROPE default structure suffix", "POLY.structure.selection.suffix", ""),
  Row("poly_mode_base_dir", "POLYTROPE mode base folder/directory", "POLY.modes.default.base_dir", ""),
  Row("poly_mode_dir", "POLYTROPE mode default output folder/directory", "POLY.modes.default.output_dir", ""),
  Row("poly_mode_substrings", "POLYTROPE mode default detail substring", "POLY.modes.selection.detail_substrings", "POLY.modes.selection.detail_substrings_to_tuple"),
  Row("poly_summary_substring", "POLYTROPE mode default summary substring", "POLY.modes.selection.summary_substring", "") >>
Labels == {Rows[i].label : i \in DOMAIN Rows}
Names == {Rows[i].name : i \in DOMAIN Rows}
NameOf(lb) == (CHOOSE i \in DOMAIN Rows : Rows[i].label = lb)
\* a value is [t, v]: none, a string, a list or a tuple of strings, a truth value
None == [t |-> "none", v |-> <<>>]
Empty == [x \in {} |-> None]
(* one line of a file of settings after the other; an unknown label ends the run *)
LineRead(info, ln) == (Rows[NameOf(ln.k)].name :> ln.v) @@ info
Known(lns) == \A i \in DOMAIN lns : lns[i].k \in Labels
RECURSIVE Lines(_, _, _)
Lines(info, lns, i) == IF i > Len(lns) THEN info ELSE Lines(LineRead(info, lns[i]), lns, i + 1)
(* the settings of an inlist, with the sequences turned into tuples where this is asked for *)
Lookup(doc, p) == doc[CHOOSE i \in DOMAIN doc : doc[i].k = p].v
Setting(doc, r) == IF r.flag = "" THEN Lookup(doc, r.path)
                   ELSE IF Lookup(doc, r.flag).v = <<"T">> THEN [Lookup(doc, r.path) EXCEPT !.t = "tuple"] ELSE Lookup(doc, r.path)
Inlist(doc) == [n \in Names |-> Setting(doc, Rows[CHOOSE i \in DOMAIN Rows : Rows[i].name = n])]
\* the subsets handed on for loading, and for comparing the oscillation codes' modes
ForCompare == {"base_dir", "mesa_output_dir", "mesa_profile_substrings", "mesa_suffix", "gyre_detail_substring", "gyre_summary_substring"}
ForLoading == ForCompare \union {"gyre_output_dir"}
Only(info, ns) == [n \in DOMAIN info \intersect ns |-> info[n]]
(* the folders *)
AdDir(run) == run.base \o (IF run.adpath = "" THEN "output_rot_" \o run.pct ELSE run.adpath) \o "/"
NadDir(run) == run.base \o (IF run.nadpath = "" THEN "output_nad_rot_" \o run.pct ELSE run.nadpath) \o "/"
Text(v) == v.v[1]
\* spell: words -> their characters;  all: a sequence of words asks for all of them, also when it is a list
Chosen(v, spell, all) == [kind |-> CASE v.t = "none" -> "none" [] v.t = "str" -> "one" [] v.t = "list" /\ ~all -> "each" [] OTHER -> "all",
                          words |-> [i \in DOMAIN v.v |-> spell[v.v[i]]]]
Here(disk, d) == IF d \in DOMAIN disk THEN disk[d] ELSE <<>>
Ids(listing, idx) == [k \in DOMAIN idx |-> listing[idx[k]].id]
ModesOf(disk, d, modes, sub) == LET f == Final(Begun, Here(disk, d), modes, sub) IN [stop |-> f.stop, ids |-> IF f.stop THEN <<>> ELSE Ids(Here(disk, d), f.got)]
StarOf(disk, d, suffix, sub, mesa) == LET c == Structures(Here(disk, d), suffix, sub, mesa)
                                      IN  IF Cardinality(c) = 1 THEN [stop |-> FALSE, ids |-> <<Here(disk, d)[CHOOSE i \in c : TRUE].id>>] ELSE [stop |-> TRUE, ids |-> <<>>]
\* all that is read for one triad: the run stops if any of it is missing or ambiguous
Whole(p) == IF \E k \in DOMAIN p : p[k].stop THEN [stop |-> TRUE, parts |-> <<>>] ELSE [stop |-> FALSE, parts |-> [k \in DOMAIN p |-> p[k].ids]]
Loading(run, info, disk, spell, modes) ==
    IF run.poly
    THEN Whole(<<ModesOf(disk, Text(info["poly_mode_dir"]), modes, Chosen(info["poly_mode_substrings"], spell, FALSE)),
                 StarOf(disk, Text(info["poly_struct_dir"]), spell[Text(info["poly_struct_suffix"])], Chosen(info["poly_struct_substrings"], spell, TRUE), FALSE)>>)
    ELSE LET sub == Chosen(info["gyre_detail_substring"], spell, FALSE)
         IN  Whole(<<ModesOf(disk, AdDir(run), modes, sub), ModesOf(disk, NadDir(run), modes, sub),
                     StarOf(disk, Text(info["mesa_output_dir"]), spell[Text(info["mesa_suffix"])], Chosen(info["mesa_profile_substrings"], spell, TRUE), TRUE)>>)
=================================================================================
