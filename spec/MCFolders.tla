-------------------------------- MODULE MCFolders --------------------------------
EXTENDS Folders, Json, IOUtils, SequencesExt, Randomization
CONSTANTS Many
\* folders of a run, and others that hold files of the same names
Str(s) == [t |-> "str", v |-> <<s>>]
Spell == [x \in {"h5", "dat", "w", "nad"} |-> CASE x = "h5" -> <<"h", "5">> [] x = "dat" -> <<"d", "a", "t">> [] x = "w" -> <<"w">> [] OTHER -> <<"n", "a", "d">>]
Doc(seqs, tup) == LET val(n) == CASE n = "mesa_output_dir" -> Str("/star") [] n = "mesa_suffix" -> Str("dat") [] n = "poly_struct_suffix" -> Str("h5")
                                  [] n \in {"mesa_profile_substrings", "gyre_detail_substring", "poly_struct_substrings", "poly_mode_substrings"} -> seqs
                                  [] n = "gyre_output_dir" -> Str("/decoy/") [] n = "poly_mode_dir" -> Str("/pm") [] n = "poly_struct_dir" -> Str("/ps") [] OTHER -> Str("/elsewhere")
                  IN  [i \in 1..16 |-> [k |-> Rows[i].path, v |-> val(Rows[i].name)]]
                      \o [i \in 1..4 |-> [k |-> <<"MESA.selection.substrings_to_tuple", "GYRE.selection.detail_substrings_to_tuple", "POLY.structure.selection.substrings_to_tuple", "POLY.modes.selection.detail_substrings_to_tuple">>[i],
                                          v |-> [t |-> "bool", v |-> <<IF tup THEN "T" ELSE "F">>]]]
AsLines(d) == [i \in 1..16 |-> [k |-> Rows[i].label, v |-> Setting(d, Rows[i])]]
Seqs == {None, Str("w"), [t |-> "list", v |-> <<"w", "w", "w">>], [t |-> "list", v |-> <<"w", "nad", "w">>]}
Modes == <<[l |-> 1, m |-> 0, n |-> 2, g |-> TRUE], [l |-> 1, m |-> 1, n |-> 3, g |-> TRUE]>>
File(m, w, id) == [name |-> w \o GWord \o <<"_">> \o (IF m.m = 0 THEN <<"l", "1", "m", "+", "0", "n", "+", "2">> ELSE <<"l", "1", "m", "+", "1", "n", "+", "3">>) \o <<".", "h", "5">>, dir |-> "F", id |-> id]
Star(w, end, id) == [name |-> w \o <<".">> \o end, dir |-> "F", id |-> id]
Dirs == <<"/g/ad/", "/g/nad/", "/g/output_rot_20/", "/g/output_nad_rot_20/", "/decoy/", "/star", "/elsewhere", "/pm", "/ps">>
\* the two modes and the two kinds of structures, everywhere; identity = 10 * folder + number
Content(d, w) == [x \in {Dirs[i] : i \in d} |-> LET i == CHOOSE j \in d : Dirs[j] = x IN
                     <<File(Modes[1], w, 10 * i + 1), File(Modes[2], w, 10 * i + 2), Star(w, <<"d", "a", "t">>, 10 * i + 3), Star(w \o <<"s">>, <<"h", "5">>, 10 * i + 4)>>]
\* (mode files end in h5 as well: the structures of polytropes are told apart by their own word)
VARIABLES doc, way, todo, info, run, disk, done
vars == <<doc, way, todo, info, run, disk, done>>
Perms == {<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>, <<16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1>>, <<9, 1, 10, 2, 11, 3, 12, 4, 13, 5, 14, 6, 15, 7, 16, 8>>}
Words2 == {<<"w">>, <<"n", "a", "d", "w">>, <<"x">>}
Init == /\ \E sq \in Seqs, tup \in BOOLEAN : (tup => sq.t = "list") /\ doc = Doc(sq, tup)
        /\ way \in {"inlist", "lines"} /\ (way = "lines" => \E p \in Perms : todo = [i \in 1..16 |-> AsLines(doc)[p[i]]]) /\ (way = "inlist" => todo = <<>>)
        /\ info = Empty
        /\ run \in [poly : {FALSE}, base : {"/g/"}, adpath : {"", "ad"}, nadpath : {"", "nad"}, pct : {"20"}]
        /\ disk \in {Content(d, w) : d \in {1..9, 1..9 \ {5, 7}, {1, 2, 6}, {3, 4, 6}, 1..5}, w \in Words2}
        /\ done = "no"
ReadLine == way = "lines" /\ todo # <<>> /\ info' = LineRead(info, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<doc, way, run, disk, done>>
ReadInlist == way = "inlist" /\ done = "no" /\ info = Empty /\ info' = Inlist(doc) /\ UNCHANGED <<doc, way, todo, run, disk, done>>
Ready == todo = <<>> /\ info # Empty
Load == Ready /\ done = "no" /\ done' = (IF Loading(run, info, disk, Spell, Modes).stop THEN "stop" ELSE "yes") /\ UNCHANGED <<doc, way, todo, info, run, disk>>
Next == ReadLine \/ ReadInlist \/ Load
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* both ways of giving settings, and every order of the lines, mean the same
SameSettings == Ready => info = Inlist(doc)
Subsets == Ready => /\ DOMAIN Only(info, ForLoading) = ForLoading /\ DOMAIN Only(info, ForCompare) \subseteq DOMAIN Only(info, ForLoading)
\* what is read lies where the settings say, whatever else is on the disk
L == Loading(run, info, disk, Spell, Modes)
Where(id) == Dirs[id \div 10]
Placed == (Ready /\ ~L.stop) => /\ \A i \in 1..2 : Where(L.parts[1][i]) = AdDir(run) /\ Where(L.parts[2][i]) = NadDir(run) /\ L.parts[1][i] % 10 = i /\ L.parts[2][i] % 10 = i
                                /\ Where(L.parts[3][1]) = "/star" /\ L.parts[3][1] % 10 = 3
Undisturbed == Ready => L = Loading(run, info, [x \in DOMAIN disk \intersect {AdDir(run), NadDir(run), "/star"} |-> disk[x]], Spell, Modes)
Needed == (Ready /\ {AdDir(run), NadDir(run), "/star"} \ DOMAIN disk # {}) => L.stop
Ends == <>(done # "no")
\* a missing and an unknown label
ASSUME ~Known(<<[k |-> "MESA suffix", v |-> None]>>) /\ Known(AsLines(Doc(None, FALSE)))
ASSUME Cardinality(Labels) = 16 /\ Cardinality(Names) = 16
Plans == [kind : {"gyre", "poly"}, way : {"toml", "toml", "lines"}, solver : {"grid", "profile"}, ad : BOOLEAN, nad : BOOLEAN, sub : {"none", "one", "each", "all"}, ssub : {"none", "list", "tuple"},
          loads : {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>, <<1, 2, 1>>}, lack : {"no", "no", "star", "ad", "nad", "twice", "folder"}, bad : {"no", "no", "label", "file"}]
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq(RandomSubset(Many, Plans)))
==================================================================================
