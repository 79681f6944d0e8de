--------------------------------- MODULE Figures ---------------------------------
(* The figures the plotter makes of the solved models: the overview (one point   *)
(* per triad and per daughter, at the lowest nonlinear frequency of the triad and *)
(* at the daughter's amplitude ratio, in the class of the triad) and the          *)
(* histogram of the resonance sharpness; and the files they are saved in.         *)
EXTENDS Analysis
VARIABLES ask, drawn, files
fig == <<ask, drawn, files>>
\* ask: [ov, sh: figures asked for; base, dir, extra, osub, oname, ssub, sname: strings; formats: set of strings; dpi]
FigInit == ask = <<>> /\ drawn = {} /\ files = {}
Request(r) == ask' = r /\ drawn' = {} /\ files' = {}
Wanted(r) == (IF r.ov THEN {"overview"} ELSE {}) \cup (IF r.sh THEN {"sharpness"} ELSE {})
Dir(r, sub) == (IF r.dir = "" THEN r.base ELSE r.base \o "/" \o r.dir) \o (IF sub = "" THEN "" ELSE "/" \o sub)
File(r, k, f) == Dir(r, IF k = "overview" THEN r.osub ELSE r.ssub) \o "/" \o (IF k = "overview" THEN r.oname ELSE r.sname)
                 \o (IF r.extra = "" THEN "" ELSE "_" \o r.extra) \o "." \o f
Draw(k) == k \in Wanted(ask) \ drawn /\ drawn' = drawn \cup {k} /\ UNCHANGED <<ask, files>>
Save(k, f) == k \in drawn /\ f \in ask.formats /\ <<k, f>> \notin files /\ files' = files \cup {<<k, f>>} /\ UNCHANGED <<ask, drawn>>
Complete == drawn = Wanted(ask) /\ files = Wanted(ask) \X ask.formats

Classes == {"stable", "ae", "valid"}
\* the points of one triad: its class, whether its frequency was mirrored, and where they are (points without a ratio are not seen)
PointsOf(t, i, md) == LET c == Class(t, i) q == Ratios(t[i]) IN
  The({[d \in {d \in {1, 2} : c # "none" /\ q[d] # None} |-> [c |-> c, dim |-> s[1] < 0, x |-> Shown(s), y |-> q[d]]] : s \in {Slowest(t[i], md)}})
\* all points of a figure: how often each is drawn
Keys(ms) == UNION {UNION {{<<k, i, d>> : d \in {1, 2}} : i \in DOMAIN Table(ms[k])} : k \in DOMAIN ms}
Points(ms) == The({[z \in {z \in Keys(ms) : z[3] \in DOMAIN f[<<z[1], z[2]>>]} |-> f[<<z[1], z[2]>>][z[3]]]
              : f \in {[z \in {<<z[1], z[2]>> : z \in Keys(ms)} |-> PointsOf(Table(ms[z[1]]), z[2], ms[z[1]])]}})
Counted(f) == [p \in {f[z] : z \in DOMAIN f} |-> Cardinality({z \in DOMAIN f : f[z] = p})]

(* the histogram of the sharpness: bars over one common binning; edges, heights   *)
(* and data in millionths; a value at an edge may be counted on either side       *)
Million(x) == LET a == IF x[1] < 0 THEN -x[1] ELSE x[1] IN (a \div x[2]) * 1000000 + ((a % x[2]) * 1000000) \div x[2]
Surely(b, v) == b.lo + 3 < v /\ v < b.hi - 3
Maybe(b, v) == b.lo - 3 <= v /\ v <= b.hi + 3
Number(vs, P(_)) == Cardinality({j \in DOMAIN vs : P(vs[j])})
RECURSIVE SumN(_, _)
SumN(bs, i) == IF i > Len(bs) THEN 0 ELSE bs[i].n + SumN(bs, i + 1)
BarsOk(bs, vs) ==
  /\ \A i \in DOMAIN bs : bs[i].n >= Number(vs, LAMBDA v : Surely(bs[i], v)) /\ bs[i].n <= Number(vs, LAMBDA v : Maybe(bs[i], v))
  /\ \A i \in 1..(Len(bs) - 1) : bs[i].hi - bs[i + 1].lo \in -3..3
  /\ SumN(bs, 1) = Len(vs)
=================================================================================
