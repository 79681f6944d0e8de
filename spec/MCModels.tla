--------------------------------- MODULE MCModels -------------------------------
EXTENDS Models, TLC, Json, IOUtils, SequencesExt, Randomization
CONSTANTS Listings, Many
\* what a file is about, and how names are made of it
Tok == [l : {1, 2, 12}, s : {"+", "-"}, m : {0, 1, 2}, n : {2, 3, 23}, g : BOOLEAN, ord : 0..2, w : 0..1]
RECURSIVE Chars(_)
Chars(k) == IF k < 10 THEN <<Digits[k + 1]>> ELSE Chars(k \div 10) \o <<Digits[(k % 10) + 1]>>
Num(t) == <<LMark \o Chars(t.l), <<"m", t.s>> \o Chars(t.m), NMark \o Chars(t.n)>>
Name(t) == LET p == Num(t)
               q == CASE t.ord = 0 -> p[1] \o p[2] \o p[3] [] t.ord = 1 -> p[3] \o <<"_">> \o p[1] \o p[2] [] OTHER -> p[2] \o p[3] \o <<"_">> \o p[1]
           IN  (IF t.w = 0 THEN <<"a", "d", "_">> ELSE <<"n", "a", "d", "_">>) \o (IF t.g THEN GWord ELSE PWord) \o <<"_">> \o q \o <<".", "h", "5">>
Signed(t) == IF t.s = "+" THEN t.m ELSE -t.m
ASSUME \A t \in Tok : /\ Clear(Name(t)) /\ Degree(Name(t)) = {t.l} /\ Radial(Name(t)) = {t.n} /\ Azimuthal(Name(t)) = {Signed(t)}
                      /\ Occurs(Name(t), GWord) = t.g /\ Occurs(Name(t), PWord) = ~t.g /\ EndsIn(Name(t), <<".", "h", "5">>)
                      /\ Occurs(Name(t), <<"n", "a", "d">>) = (t.w = 1)
Modes == [l : {1, 2, 12}, m : -2..2, n : {2, 3, 23}, g : {TRUE}]
Subs == {[kind |-> "none", words |-> <<>>], [kind |-> "one", words |-> <<<<"n", "a", "d">>>>], [kind |-> "one", words |-> <<<<"a", "d">>>>],
         [kind |-> "each", words |-> <<<<"n", "a", "d">>, <<"a", "d">>>>], [kind |-> "all", words |-> <<<<"n", "a", "d">>, <<"m", "-">>>>]}
\* three files: the two wanted and one more
Close(m) == {t \in Tok : t.g /\ t.l = m.l /\ t.n = m.n /\ Signed(t) = m.m}
VARIABLES toks, modes, sub, st
Files == [i \in DOMAIN toks |-> [name |-> Name(toks[i]), dir |-> "F"]]
Pool == {t \in Tok : t.ord = 0}
Init == /\ modes \in [1..2 -> RandomSubset(Listings, Modes)] /\ sub \in Subs
        /\ toks \in {<<a, b, c>> : a \in RandomSubset(1, Close(modes[1])), b \in RandomSubset(1, Close(modes[2])), c \in RandomSubset(3, Pool) \union RandomSubset(1, Close(modes[2]))}
        /\ st = Begun
Next == Going(st, modes) /\ st' = Loaded(st, Files, modes, sub) /\ UNCHANGED <<toks, modes, sub>>
Spec == Init /\ [][Next]_<<toks, modes, sub, st>> /\ WF_<<toks, modes, sub, st>>(Next)
\* never another mode's file
Faithful == \A k \in DOMAIN st.got : LET t == toks[st.got[k]] IN
                t.l = modes[k].l /\ t.n = modes[k].n /\ t.g = modes[k].g /\ Signed(t) = modes[k].m /\ Words(sub, k, Name(t))
\* only when it is the only one
Single == \A k \in DOMAIN st.got : \A i \in DOMAIN toks : i # st.got[k] =>
            ~(toks[i].l = modes[k].l /\ toks[i].n = modes[k].n /\ toks[i].g /\ Signed(toks[i]) = modes[k].m /\ Words(sub, k, Name(toks[i])))
AllOrNone == st.stop => st.got = <<>>
\* the order of the listing does not matter
Back == LET r == Len(toks) IN
        Final(Begun, [i \in 1..r |-> Files[r + 1 - i]], modes, sub) = LET f == Final(Begun, Files, modes, sub) IN [f EXCEPT !.got = [k \in DOMAIN @ |-> r + 1 - @[k]]]
Ends == <>(~Going(st, modes))
Closed == ~Going(st, modes) => st = Final(Begun, Files, modes, sub)
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq({[modes |-> m, extra |-> x, sub |-> k] : m \in RandomSubset(Many, [1..3 -> Modes]), x \in {0, 1, 2, 3, 5}, k \in {"none", "one", "each", "all"}}))
=================================================================================
