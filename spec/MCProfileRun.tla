------------------------------- MODULE MCProfileRun ------------------------------
EXTENDS ProfileRun, Json, IOUtils, Randomization
CONSTANTS Top, Many
Small == [n : {<<3, 5, 7>>, <<3, 5, 5>>, <<3, 57, 5>>}, l : {<<2, 2, 2>>}, m : {<<0, 1, -1>>, <<0, 1, 1>>}, save : {"a", "b"}, words : {<<>>, <<"x">>, <<"x", "y">>, <<"y", "x">>, <<"x", "y", "z">>},
          pct : {"5", "20"}, terms : BOOLEAN, kernels : BOOLEAN, coupled : BOOLEAN]
Vals == {<<>>} \union (UNION {[1..k -> BOOLEAN] : k \in {3, 4}})
VARIABLES r, v, y, st
vars == <<r, v, y, st>>
Init == /\ r \in RandomSubset(30, Small) /\ v \in Vals /\ y \in (IF v = <<>> THEN {<<0, 0, 0>>} ELSE {<<0>> \o w : w \in [1..(Len(v) - 1) -> -1..Top]}) /\ st = Begun
Next == Going(st) /\ st' = Stage(st, r, v) /\ UNCHANGED <<r, v, y>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* nothing is drawn or told of a run that stops
Unspoiled == st.stage = "stopped" => st = [Begun EXCEPT !.stage = "stopped"]
Stops == st.stage = "over" => r.coupled /\ v # <<>>
Complete == st.stage = "over" => /\ Cardinality(st.files) = IF r.terms THEN 3 ELSE 2
                                 /\ Cardinality(st.kernels) = (IF r.kernels THEN 8 ELSE 0) /\ st.shown = 1 /\ ("terms" \in st.told) = r.terms
\* what was taken out and what is left make up the whole
Books == v # <<>> => y[Len(y)] = y[1] + SumSeq(Taken(y, v)) + (AdjTotal(y, v) - y[1])
Additive == v # <<>> => LET a == [i \in DOMAIN y |-> y[i] * i] IN AdjTotal([i \in DOMAIN y |-> y[i] + a[i]], v) = AdjTotal(y, v) + AdjTotal(a, v)
Painted == v # <<>> => \A i \in DOMAIN v : v[i] = \E p \in Shaded(v) : p[1] <= i - 1 /\ i - 1 <= p[2]
Ends == <>(~Going(st))
\* the figures of one run never replace those of another triad, model or rotation
Key(q) == <<q.n, q.l, q.m, q.save, q.pct, IF q.words = <<>> THEN <<>> ELSE SubSeq(q.words, 1, Len(q.words) - 1)>>
Files(q) == {Whole(q), Masked(q), ByTerm(q)}
Sample == {q \in Small : q.terms /\ q.kernels /\ q.coupled}
ASSUME \A a, b \in Sample : Key(a) # Key(b) => {<<f.dir, f.name>> : f \in Files(a)} \intersect {<<f.dir, f.name>> : f \in Files(b)} = {}
ASSUME \A a \in Sample : Cardinality(Files(a)) = 3
Kinds == UNION {[1..k -> {"V", "I"}] : k \in 2..6}
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq(RandomSubset(Many, [kinds : Kinds, terms : BOOLEAN, kernels : BOOLEAN, coupled : {TRUE}, same : BOOLEAN, words : 1..3, hyper : BOOLEAN])))
=================================================================================
