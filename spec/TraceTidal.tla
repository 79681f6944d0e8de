-------------------------------- MODULE TraceTidal --------------------------------
EXTENDS Tidal, Conf
TInit == l = 1
Set(s) == {s[i] : i \in DOMAIN s}
Fr(s) == [i \in DOMAIN s |-> RInt(s[i])]
\* v: the values found, or nothing when the program stopped
LookOk(e) == e.v = Looked(e.modes, Set(IF e.base = "" THEN e.etables ELSE e.tables), e.base, e.env)
One(e) == e.v = (IF e.base = "" /\ Usable("", e.env) /\ Has1(e.modes[1], Set(e.etables)) THEN <<Value1(e.modes[1], Set(e.etables))>> ELSE Stopped)
\* who: per mode, the pairs (mode, eigenvalue) whose angular functions, on norm one, are the ones it was given
TriadOk(e) == LET w == Whose(e.modes, Set(e.etables), e.env) IN
              /\ Len(e.who) = Len(w) /\ Len(e.norm) = Len(w)
              /\ \A i \in DOMAIN w : w[i] \in Set(e.who[i]) /\ e.norm[i] = Normed
SeenOk(e) == e.v = Seen([i \in DOMAIN e.fs |-> [k \in DOMAIN e.fs[i] |-> Fr(e.fs[i][k])]], e.mu, e.method)
TStep == /\ \/ At("begin")
            \/ At("look") /\ LookOk(E)
            \/ At("one") /\ One(E)
            \/ At("triad") /\ TriadOk(E)
            \/ At("seen") /\ SeenOk(E)
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject
         \/ Finish
TSpec == TInit /\ [][TNext]_l
===================================================================================
