---------------------------------- MODULE Grid ----------------------------------
(* A grid computation: every mode triad of the requested radial orders is loaded *)
(* (structure, adiabatic and non-adiabatic modes), passes the gate of module     *)
(* TriadGate, gets its coupling coefficient when the gate lets it through, and   *)
(* leaves one record.  A record is a function of its own triad alone.            *)
(* w.modes is the table of the star's modes: [l, m, n, frame, f, fn, g] with     *)
(* integer frequencies f (adiabatic), fn (non-adiabatic) and growth rate g.      *)
EXTENDS Stationary, TriadGate

VARIABLES w, pend, loaded, coupled, visited, phase
world == <<w, pend, loaded, coupled, visited, phase>>
W0 == [x |-> 0]
GridInit == /\ w = W0 /\ pend = <<>> /\ loaded = {} /\ coupled = "no" /\ visited = {} /\ phase = "idle"
            /\ FreqInit /\ tr = W0 /\ az = "?" /\ mer = "?" /\ lin = "?" /\ verdict = "?" /\ pc = "idle"

(* ------------------------- what is requested -------------------------------- *)
Span(r) == IF r = <<>> THEN {} ELSE r[1]..r[2]
PairWanted(x, y) == IF w.d2 = <<>> THEN x \in Span(w.d1) /\ y \in Span(w.d1) /\ x < y
                    ELSE (x \in Span(w.d1) /\ y \in Span(w.d2)) \/ (y \in Span(w.d1) /\ x \in Span(w.d2))
Key(n) == <<n[1], {n[2], n[3]}>>
Wanted(n) == Len(n) = 3 /\ n[1] \in Span(w.p) /\ PairWanted(n[2], n[3])
Daughters == LET U == Span(w.d1) \union Span(w.d2) IN {{q[1], q[2]} : q \in {q \in U \X U : PairWanted(q[1], q[2])}}
AllKeys == Span(w.p) \X Daughters

(* ------------------------- the triad n -------------------------------------- *)
ModeOf(i, n) == LET k == CHOOSE k \in DOMAIN w.modes : w.modes[k].l = w.l[i] /\ w.modes[k].m = w.m[i] /\ w.modes[k].n = n[i] IN w.modes[k]
Triad(n) == [i \in 1..3 |-> ModeOf(i, n)]
UseNad == ~w.adiab /\ ~w.poly            \* whose frequencies the handler starts from
AdOf(n) == LET t == Triad(n) IN [i \in 1..3 |-> [frame |-> t[i].frame, m |-> t[i].m, n |-> IF UseNad THEN t[i].fn ELSE t[i].f]]
NadOf(n) == LET t == Triad(n) IN [i \in 1..3 |-> [frame |-> t[i].frame, m |-> t[i].m, n |-> t[i].fn]]
GamOf(n) == LET t == Triad(n) IN [i \in 1..3 |-> t[i].g]
LM == [i \in 1..3 |-> <<w.l[i], w.m[i]>>]
Barred == IF w.conj = <<>> THEN DefaultConj ELSE w.conj
TwoMode(n) == n[2] = n[3] /\ w.l[2] = w.l[3] /\ w.m[2] = w.m[3]
Det(n) == LET s == AdOf(n) IN Corot(s[1], w.rot) - Corot(s[2], w.rot) - Corot(s[3], w.rot)
Admitted(n) == \/ w.poly
               \/ /\ Selected(LM, <<1, 2, 3>>, Barred)
                  /\ w.stat => LinearlyStable(GamOf(n), Det(n), GSum(GamOf(n)), TwoMode(n))
MayCouple(n) == w.poly \/ ~w.stat \/ Admitted(n)
Hyper(n) == w.poly \/ (MayCouple(n) /\ (Parametric(GamOf(n)) \/ Direct(GamOf(n))))

(* ------------------------- steps -------------------------------------------- *)
Sources == IF w.poly THEN {"poly"} ELSE {"ad", "nad"}
Complete == pend = <<>> \/ (loaded = Sources /\ (MayCouple(pend) <=> coupled = "done"))
Begin(e) == w' = e /\ pend' = <<>> /\ loaded' = {} /\ coupled' = "no" /\ visited' = {} /\ phase' = "run"
Fresh(n) == Key(n) \notin visited
\* files of triad n are read from one source; the first read makes n the current triad
Load(src, n) ==
  /\ phase = "run" /\ src \in Sources
  /\ \/ n = pend /\ src \notin loaded /\ loaded' = loaded \union {src} /\ UNCHANGED <<pend, coupled, visited>>
     \/ /\ n # pend /\ Complete /\ Wanted(n) /\ Fresh(n)
        /\ pend' = n /\ loaded' = {src} /\ coupled' = "no" /\ visited' = visited \union {Key(n)}
  /\ UNCHANGED <<w, phase>>
Build(n) == /\ phase = "run" /\ n = pend /\ loaded = Sources /\ coupled = "no" /\ MayCouple(n)
            /\ coupled' = "built" /\ UNCHANGED <<w, pend, loaded, visited, phase>>
Compute == /\ coupled = "built" /\ coupled' = "done" /\ UNCHANGED <<w, pend, loaded, visited, phase>>
End == /\ phase = "run" /\ Complete /\ visited = AllKeys
       /\ phase' = "end" /\ UNCHANGED <<w, pend, loaded, coupled, visited>>

OnlyAdmittedCoupled == phase # "idle" /\ pend # <<>> /\ coupled # "no" => MayCouple(pend)
NeverCoupledTwice == coupled \in {"no", "built", "done"}
AllWhenDone == phase = "end" => Cardinality(visited) = Cardinality(Span(w.p)) * Cardinality(Daughters)
AdmittedImpliesSigns == phase # "idle" /\ pend # <<>> /\ ~w.poly /\ w.stat /\ Admitted(pend) =>
                          GSum(GamOf(pend)) < 0 \/ TwoMode(pend)

(* ------------------------- contents of a record ----------------------------- *)
\* the coded physics of the test star: what each computed ingredient evaluates to
CcN(n) == 1 + ((n[1] + 2 * n[2] + 5 * n[3]) % 3)
CcIm(n) == IF w.cplx /\ UseNad THEN 1 + ((n[1] + n[2]) % 2) ELSE 0
Cc(n) == <<10 * CcN(n) * (IF n[1] % 2 = 0 THEN 1 ELSE -1), 10 * CcIm(n)>>
Ncc(n) == <<3 * CcN(n) * (IF n[2] % 2 = 0 THEN 1 ELSE -1), 3 * CcIm(n)>>
Eta(n) == <<CcN(n) * (IF n[2] % 2 = 0 THEN 1 ELSE -1), CcIm(n)>>
Term(n) == [i \in 1..4 |-> 100 * i + n[1] + n[2] - n[3]]
Norm(n) == [i \in 1..3 |-> 1 + ((n[1] + n[i] + 2 * i) % 3)]
LumRe(md) == ((3 * md.n + 5 * md.l + md.m) % 5) - 2
LumIm(md) == (md.n + md.m) % 3
Xi(md) == ((2 * md.n + md.l) % 5) - 2
Tk(md) == (md.n % 4) - 1
Ek(md) == (md.n + md.l) % 3
RSq(re, im) == RInt(re * re + im * im)
Response2(n, i) == LET md == Triad(n)[i]  N == Norm(n)[i]
                       re == Tk(md) * LumRe(md) * N - Ek(md) * Xi(md) * N
                       im == Tk(md) * LumIm(md) * N
                   IN RSq(re, im)
NotNum == <<0, 0>>
Root(x) == IF x[1] < 0 THEN NotNum ELSE x        \* square of a real quantity, or not a number
Zero3 == <<RInt(0), RInt(0), RInt(0)>>
\* requires ad, nad, gam, rot, req of triad n in the Freq variables
AmpSq(n) == IF ~Admitted(n) THEN Zero3
            ELSE LET s == Solution(Quality(ad), QFac(ad), RSq(Eta(n)[1], Eta(n)[2])) IN [i \in 1..3 |-> Root(s[i])]
FluxSq(n) == IF ~Admitted(n) THEN Zero3
             ELSE LET a == AmpSq(n) IN [i \in 1..3 |-> IF a[i] = NotNum THEN NotNum ELSE RMul(a[i], Response2(n, i))]
AcritSq(n) == IF ~Admitted(n) THEN NotNum ELSE Root(CritSq(Quality(ad), QCrit(ad), RSq(Eta(n)[1], Eta(n)[2])))
TanPhase(n) == IF ~Admitted(n) THEN NotNum ELSE RNeg(RInv(QFac(ad)))
MeanN(n) == n[1] + n[2] + n[3]
WuN(n) == n[1] - Abs(n[2] - n[3])
=================================================================================
