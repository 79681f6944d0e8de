---------------------------------- MODULE Reader --------------------------------
(* What the files of modes and stars say.  A profile is a text: one line of       *)
(* names and one of values describe the star, a line of names and any number of   *)
(* lines of values describe its layers; every line holds fields between blanks.   *)
(* A store keeps values under names, as data sets or as attributes.               *)
EXTENDS Rational, Sequences, FiniteSets
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
IsDigit(c) == \E i \in 1..10 : Digits[i] = c
DigitOf(c) == (CHOOSE i \in 1..10 : Digits[i] = c) - 1
\* fields of a line: maximal runs of characters that are not blank
Starts(s) == {i \in DOMAIN s : s[i] # " " /\ (i = 1 \/ s[i - 1] = " ")}
EndFrom(s, i) == The({j \in i..Len(s) : (j = Len(s) \/ s[j + 1] = " ") /\ \A k \in i..j : s[k] # " "})
Nth(S, n) == CHOOSE i \in S : Cardinality({j \in S : j <= i}) = n
Fields(s) == The({[n \in 1..Cardinality(S) |-> The({SubSeq(s, i, EndFrom(s, i)) : i \in {Nth(S, n)}})] : S \in {Starts(s)}})
\* the same, one character after the other
RECURSIVE Scan(_, _, _, _)
Scan(s, i, tok, got) == IF i > Len(s) THEN IF tok = <<>> THEN got ELSE Append(got, tok)
                        ELSE IF s[i] # " " THEN Scan(s, i + 1, Append(tok, s[i]), got)
                        ELSE Scan(s, i + 1, <<>>, IF tok = <<>> THEN got ELSE Append(got, tok))
\* a decimal number: sign, digits, fraction, exponent
RECURSIVE Whole(_, _)
Whole(d, acc) == IF d = <<>> THEN acc ELSE Whole(Tail(d), 10 * acc + DigitOf(Head(d)))
RECURSIVE Trimmed(_)
Trimmed(d) == IF d # <<>> /\ d[Len(d)] = "0" THEN Trimmed(SubSeq(d, 1, Len(d) - 1)) ELSE d
Signed(t) == t # <<>> /\ Head(t) \in {"-", "+"}
Place(t, c) == {i \in DOMAIN t : t[i] = c}
UpTo(t, c) == IF Place(t, c) = {} THEN t ELSE SubSeq(t, 1, The(Place(t, c)) - 1)
Beyond(t, c) == IF Place(t, c) = {} THEN <<>> ELSE SubSeq(t, The(Place(t, c)) + 1, Len(t))
RECURSIVE Pow10(_)
Pow10(n) == IF n <= 0 THEN 1 ELSE 10 * Pow10(n - 1)
Plain(t) == IF Signed(t) THEN Tail(t) ELSE t
Sign(t) == IF Signed(t) /\ Head(t) = "-" THEN -1 ELSE 1
ValueOf(t) == The({The({LET n == Sign(t) * Whole(p.w \o p.f, 0)
                            x == p.e - Len(p.f)
                        IN  IF n = 0 THEN <<0, 1>> ELSE IF x >= 0 THEN <<n * Pow10(x), 1>> ELSE R(n, Pow10(-x))
                        : p \in {[w |-> UpTo(m, "."), f |-> Trimmed(Beyond(m, ".")), e |-> LET q == Beyond(t, "E") IN IF q = <<>> THEN 0 ELSE Sign(q) * Whole(Plain(q), 0)]}})
                   : m \in {UpTo(Plain(t), "E")}})
(* reading a profile: the star in lines 2 and 3, the names of what is given per layer in line 6 *)
NamesAt(text, n) == IF n > Len(text) THEN <<>> ELSE Fields(text[n])
PerLayer(text) == NamesAt(text, 6)
PerStar(text) == NamesAt(text, 2)
Layers(text) == IF Len(text) < 7 THEN 0 ELSE Len(text) - 6
\* for every known name its value, or its values layer by layer; nothing for other names
ReadText(text, known) ==
    LET cols == PerLayer(text)
        star == PerStar(text)
        rows == [n \in 1..Layers(text) |-> Fields(text[n + 6])]
        vals == Fields(text[3])
    IN  {[k |-> cols[i], v |-> [n \in DOMAIN rows |-> ValueOf(rows[n][i])]] : i \in {j \in DOMAIN cols : cols[j] \in known}}
        \union {[k |-> star[i], v |-> <<ValueOf(vals[i])>>] : i \in {j \in DOMAIN star : star[j] \in known /\ \A c \in DOMAIN cols : cols[c] # star[j]}}
(* reading a store: a data set goes before an attribute of the same name *)
ReadStore(items, known) ==
    {[k |-> items[i].k, v |-> items[i].v] : i \in {j \in DOMAIN items : items[j].k \in known
                                                    /\ (items[j].set = "F" => ~\E q \in DOMAIN items : items[q].k = items[j].k /\ items[q].set = "T")}}
Understood == {"h5", "hdf5", "dat"}
=================================================================================
