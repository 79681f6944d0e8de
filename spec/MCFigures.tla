-------------------------------- MODULE MCFigures --------------------------------
(* Every request for figures, drawn and saved in any order, of every small table. *)
EXTENDS Figures, TLC, Json, IOUtils
CONSTANTS Rows
Cell(p) == [n : {<<p, 5, 5>>, <<p, 5, 6>>}, thr : {0, 2, 4}, eq : {1, 3}, co : {<<20, 11, 9>>, <<20, 13, 9>>}, g : {<<1, -2, -3>>}, par : {TRUE}, dir : {FALSE},
         chk : {<<TRUE, TRUE, TRUE>>, <<TRUE, FALSE, TRUE>>}, s : {<<3, 2, 1>>, <<3, -1, 1>>}]
Tables == {<<>>} \cup {<<c>> : c \in Cell(1)} \cup (IF Rows > 1 THEN {<<c, d>> : c \in Cell(1), d \in {d \in Cell(2) : d.s = <<3, 2, 1>> /\ d.eq = 1}} ELSE {})
Reqs == [ov : BOOLEAN, sh : BOOLEAN, base : {"b"}, dir : {"", "d"}, extra : {"", "x"}, osub : {"", "o"}, oname : {"ov"}, ssub : {"", "s"}, sname : {"sh"}, formats : {{"png"}, {"png", "pdf"}}, dpi : {40}]
Md(t) == [files |-> <<t>>, l |-> <<2, 2, 2>>, m |-> <<2, 1, 1>>, rot |-> 3, tdyn |-> 1000]
Init == /\ AnaInit /\ FreqInit /\ FigInit
Next == UNCHANGED freq /\
  \/ ask = <<>> /\ \/ \E t \in Tables : Load(<<Md(t)>>) /\ Request([ov |-> TRUE, sh |-> TRUE, base |-> "b", dir |-> "", extra |-> "", osub |-> "", oname |-> "ov", ssub |-> "", sname |-> "sh", formats |-> {"png"}, dpi |-> 40])
                   \/ \E r \in Reqs : Load(<<Md(<<>>)>>) /\ Request(r)
  \/ ask # <<>> /\ UNCHANGED models /\ ((\E k \in {"overview", "sharpness"} : Draw(k)) \/ \E k \in {"overview", "sharpness"}, f \in {"png", "pdf"} : Save(k, f))
Spec == Init /\ [][Next]_<<models, fig, freq>>
Asked == ask # <<>>
\* no figure is written over another, and nothing is written that was not asked for
Distinct == Asked => \A a, b \in files : a # b => File(ask, a[1], a[2]) # File(ask, b[1], b[2])
OnlyWanted == Asked => {a[1] : a \in files} \subseteq Wanted(ask)
\* every stable triad that is no harmonic is seen twice in the overview (unless an amplitude is missing), all others never
SeenTwice == Asked => \A k \in DOMAIN models : \A i \in DOMAIN Table(models[k]) :
   LET t == Table(models[k]) IN Cardinality(DOMAIN PointsOf(t, i, models[k])) = (IF Stable(t[i]) /\ ~Harmonic(t[i]) THEN Cardinality({d \in {1, 2} : Ratios(t[i])[d] # None}) ELSE 0)
\* points in the class of isolated triads are those counted in the histogram, harmonics apart
Agrees == Asked => \A k \in DOMAIN models : \A i \in DOMAIN Table(models[k]) :
   LET t == Table(models[k]) IN ~Harmonic(t[i]) => (Class(t, i) = "valid" <=> Sharp(t, i) = "iso")
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq({[r EXCEPT !.formats = SetToSeq(r.formats)] : r \in Reqs}))
=================================================================================
