---------------------------------- MODULE MCReader -------------------------------
EXTENDS Reader, TLC, Json, IOUtils, SequencesExt, Randomization
CONSTANTS Rows, Wide, Many
(* A profile is written layer by layer; whatever is written is read back.           *)
VARIABLES table
vars == <<table>>
RECURSIVE Chars(_)
Chars(n) == IF n < 0 THEN <<"-">> \o Chars(-n) ELSE IF n < 10 THEN <<Digits[n + 1]>> ELSE Append(Chars(n \div 10), Digits[(n % 10) + 1])
RECURSIVE Blanks(_)
Blanks(n) == IF n <= 0 THEN <<>> ELSE <<" ">> \o Blanks(n - 1)
Cell(c) == Blanks(Wide - Len(c)) \o c
Line(t) == Cell(t[1]) \o Cell(t[2])
A == <<"z">>
B == <<"g", "r">>
Text == <<Line(<<Chars(1), Chars(2)>>), Line(<<<<"m">>, <<"n">>>>), Line(<<Chars(7), Chars(Len(table))>>), <<>>, Line(<<Chars(1), Chars(2)>>), Line(<<A, B>>)>>
        \o [i \in DOMAIN table |-> Line(<<Chars(table[i][1]), Chars(table[i][2])>>)]
Values == {-12, -3, 0, 5, 40, 128}
Init == table = <<>>
Next == Len(table) < Rows /\ \E v \in Values \X Values : table' = Append(table, v)
Spec == Init /\ [][Next]_vars
Known == {A, B, <<"m">>, <<"q">>}
\* what is written is read, nothing else
Back == ReadText(Text, Known) = {[k |-> A, v |-> [i \in DOMAIN table |-> <<table[i][1], 1>>]], [k |-> B, v |-> [i \in DOMAIN table |-> <<table[i][2], 1>>]], [k |-> <<"m">>, v |-> <<<<7, 1>>>>]}
\* both ways of finding fields agree
Same == \A i \in DOMAIN Text : Scan(Text[i], 1, <<>>, <<>>) = Fields(Text[i])
\* a reader that takes the extent of the fields from the first lines gets the rest right only if nothing is longer there
Filled(k) == {c \in 1..2 * Wide : \E i \in 6..(5 + k) : i <= Len(Text) /\ Text[i][c] # " "}
Runs(k) == {i \in Filled(k) : i - 1 \notin Filled(k)}
RunEnd(k, i) == The({j \in Filled(k) : j >= i /\ j + 1 \notin Filled(k) /\ \A q \in i..j : q \in Filled(k)})
Cut(k, n, c) == The({SubSeq(Text[n], i, RunEnd(k, i)) : i \in {Nth(Runs(k), c)}})
Fits(k, n) == \A c \in 1..2 * Wide : Text[n][c] # " " => c \in Filled(k)
Prefix == \A n \in 7..Len(Text) : Cardinality(Runs(2)) = 2 =>
             (Fits(2, n) <=> \A c \in 1..2 : Fields(Cut(2, n, c)) = <<Fields(Text[n])[c]>>)
ASSUME ValueOf(<<"-", "1", ".", "5", "0", "E", "+", "0", "1">>) = <<-15, 1>> /\ ValueOf(<<"2", "E", "-", "0", "0", "3">>) = <<1, 500>> /\ ValueOf(<<"1", "0", ".", "0">>) = <<10, 1>>
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq(RandomSubset(Many,
   [rows : {1, 2, 5, 12, 100, 101, 104, 110, 125}, cols : 1..4, star : 1..3, width : {7, 9, 12, 40}, look : {"int", "dec", "exp"},
    late : {"sign", "digit", "none", "both"}, unknown : 0..2, shared : BOOLEAN, suffix : {"dat", "DAT", "dat", "h5", "hdf5", "H5", "hdf5", "xyz", "dat"}, items : 1..6, seed : 1..40])))
===================================================================================
