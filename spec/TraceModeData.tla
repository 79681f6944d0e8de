------------------------------ MODULE TraceModeData ------------------------------
EXTENDS ModeData, Conf
TInit == l = 1
\* objects are sequences of [k, v]
Val(o, k) == CHOOSE i \in DOMAIN o : o[i].k = k
Names(e) == IF e.name = "own" THEN {e.own[i] : i \in DOMAIN e.own} ELSE Group(e.name, e.poly)
Expected(o, names, c) == [i \in DOMAIN o |-> [k |-> o[i].k, v |-> IF o[i].k \in names THEN Taken(o[i].v, c) ELSE o[i].v]]
CutOk(e) == IF e.name # "own" /\ ~Known(e.name, e.poly) THEN e.err = "SystemExit" /\ e.out = e.obj
            ELSE e.err = "" /\ \E o \in {Expected(Expected(e.obj, Names(e), e.cut), Names(e), e.again)} : e.out = o
JoinOk(e) == e.err = "" /\ e.out = Joined(e.re, e.im, e.d)
UnitOk(e) == e.err = "" /\ e.out = Unit(e.text)
TStep == /\ \/ At("begin")
            \/ At("cut") /\ CutOk(E)
            \/ At("join") /\ JoinOk(E)
            \/ At("unit") /\ UnitOk(E)
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject
         \/ Finish
TSpec == TInit /\ [][TNext]_l
==================================================================================
