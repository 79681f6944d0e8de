---------------------------------- MODULE Models --------------------------------
(* Finding the files of the modes of a triad, and of the stellar structure, in a  *)
(* directory.  Names are sequences of characters, exactly as they are on disk;    *)
(* what a name says about a mode is read off it by the operators below.           *)
EXTENDS Integers, Sequences, FiniteSets
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : Digits[i] = c
Val(c) == CHOOSE i \in 0..9 : Digits[i + 1] = c
RECURSIVE Number(_, _, _)
Number(s, i, acc) == IF i > Len(s) THEN acc ELSE IF ~IsDigit(s[i]) THEN acc ELSE Number(s, i + 1, 10 * acc + Val(s[i]))
\* positions right after an occurrence of the word w
After(s, w) == {i \in (Len(w) + 1)..(Len(s) + 1) : SubSeq(s, i - Len(w), i - 1) = w}
Occurs(s, w) == After(s, w) # {}
EndsIn(s, w) == Len(s) + 1 \in After(s, w)
\* positions at which a number with this mark in front of it starts
Marked(s, w) == {i \in After(s, w) : i <= Len(s) /\ IsDigit(s[i])}
LMark == <<"l">>
NMark == <<"n", "+">>
Signs == {<<"m", "+">>, <<"m", "-">>}
\* naming convention: each of the numbers is given at most once
Clear(s) == /\ Cardinality(Marked(s, LMark)) <= 1 /\ Cardinality(Marked(s, NMark)) <= 1
            /\ Cardinality(Marked(s, <<"m", "+">>)) + Cardinality(Marked(s, <<"m", "-">>)) <= 1
Degree(s) == {Number(s, i, 0) : i \in Marked(s, LMark)}
Radial(s) == {Number(s, i, 0) : i \in Marked(s, NMark)}
Azimuthal(s) == {Number(s, i, 0) : i \in Marked(s, <<"m", "+">>)} \union {-Number(s, i, 0) : i \in Marked(s, <<"m", "-">>)}
GWord == <<"g", "_", "m", "o", "d", "e">>
PWord == <<"p", "_", "m", "o", "d", "e">>
\* extra words: none, the same one for every mode, one per mode, or all of them for every mode
Words(sub, k, s) == CASE sub.kind = "none" -> TRUE
                      [] sub.kind = "one" -> Occurs(s, sub.words[1])
                      [] sub.kind = "each" -> Occurs(s, sub.words[k])
                      [] OTHER -> \A i \in DOMAIN sub.words : Occurs(s, sub.words[i])
IsMode(f, mode, sub, k) == /\ f.dir = "F" /\ Words(sub, k, f.name)
                           /\ Degree(f.name) = {mode.l} /\ Azimuthal(f.name) = {mode.m} /\ Radial(f.name) = {mode.n}
                           /\ Occurs(f.name, IF mode.g THEN GWord ELSE PWord)
Candidates(files, mode, sub, k) == {i \in DOMAIN files : IsMode(files[i], mode, sub, k)}
\* the stellar model: suffix, words, and not the output of the oscillation code
IsStructure(f, suffix, sub, mesa) == /\ f.dir = "F" /\ EndsIn(f.name, <<".">> \o suffix) /\ Words(sub, 1, f.name)
                                     /\ mesa => ~Occurs(f.name, <<"g", "y", "r", "e">>) /\ ~Occurs(f.name, <<"G", "Y", "R", "E">>)
Structures(files, suffix, sub, mesa) == {i \in DOMAIN files : IsStructure(files[i], suffix, sub, mesa)}
\* a directory that was not given is the only one with the word in its name, if there is one
Inferred(dirs, w) == {i \in DOMAIN dirs : dirs[i].dir = "T" /\ Occurs(dirs[i].name, w)}
(* loading: one mode after the other; anything but a single file ends the run *)
Begun == [got |-> <<>>, stop |-> FALSE]
Loaded(st, files, modes, sub) ==
    LET k == Len(st.got) + 1
        c == Candidates(files, modes[k], sub, k)
    IN  IF Cardinality(c) = 1 THEN [st EXCEPT !.got = Append(@, CHOOSE i \in c : TRUE)] ELSE [got |-> <<>>, stop |-> TRUE]
Going(st, modes) == ~st.stop /\ Len(st.got) < Len(modes)
RECURSIVE Final(_, _, _, _)
Final(st, files, modes, sub) == IF Going(st, modes) THEN Final(Loaded(st, files, modes, sub), files, modes, sub) ELSE st
=================================================================================
