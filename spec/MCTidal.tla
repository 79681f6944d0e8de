---------------------------------- MODULE MCTidal ---------------------------------
(* Setting up the angular functions of every small triad, step by step.            *)
EXTENDS Tidal, FiniteSets, Randomization, Json, IOUtils, SequencesExt
CONSTANTS Lmax, Spins, Files, Many
VARIABLES modes, tables, env, stage, eig, fns
vars == <<modes, tables, env, stage, eig, fns>>
Some == {[l |-> l, m |-> m, n2 |-> n, file |-> f] : l \in 1..Lmax, m \in (-Lmax)..Lmax, n \in Spins, f \in Files}
Keys == {[m |-> m, k |-> k] : m \in (-Lmax)..Lmax, k \in (-1)..Lmax}
Table(key) == [m |-> key.m, k |-> key.k, c |-> 10 * key.m + 100 + key.k, b |-> key.k + 2]
Kinds == {"given", "nosource", "nowhere", "unset"}
Init == /\ modes = <<>> /\ stage = "collect" /\ eig = <<>> /\ fns = <<>>
        /\ \E keys \in {Keys, {q \in Keys : q.m # -1}, {q \in Keys : q.k >= 0}, {}} : tables = {Table(q) : q \in keys}
        /\ env \in Kinds
Collect == /\ stage = "collect" /\ Len(modes) < 3
           /\ \E x \in Some : modes' = Append(modes, x)
           /\ stage' = IF Len(modes) = 2 THEN "eigen" ELSE stage
           /\ UNCHANGED <<tables, env, eig, fns>>
\* one mode after the other; a single mode without a value in its file makes all of them look in the tables
Read == /\ stage = "eigen" /\ InFiles(modes)
        /\ eig' = Append(eig, modes[Len(eig) + 1].file)
        /\ stage' = IF Len(eig) = 2 THEN "solve" ELSE stage
        /\ UNCHANGED <<modes, tables, env, fns>>
Look == /\ stage = "eigen" /\ ~InFiles(modes)
        /\ LET x == modes[Len(eig) + 1] IN
           IF env = "given" /\ Has1(x, tables) THEN eig' = Append(eig, Value1(x, tables)) /\ stage' = IF Len(eig) = 2 THEN "solve" ELSE stage
           ELSE eig' = <<>> /\ stage' = "stopped"
        /\ UNCHANGED <<modes, tables, env, fns>>
Solve == /\ stage = "solve"
         /\ fns' = Append(fns, <<Len(fns) + 1, eig[Len(fns) + 1]>>)
         /\ stage' = IF Len(fns) = 2 THEN "done" ELSE stage
         /\ UNCHANGED <<modes, tables, env, eig>>
Next == Collect \/ Read \/ Look \/ Solve
Spec == Init /\ [][Next]_vars
\* the steps arrive at what the definitions say
Arrives == /\ stage = "done" => fns = Whose(modes, tables, env) /\ eig = Eigen(modes, tables, env)
           /\ stage = "stopped" => Eigen(modes, tables, env) = Stopped
\* a table is that of one azimuthal order and one ordering number
OneTable == \A i \in DOMAIN modes : Cardinality(Named(tables, TableOf(modes[i]))) <= 1
\* every mode is given the value of a table of its own azimuthal order
OwnOrder == stage = "done" /\ ~InFiles(modes) => \A i \in 1..3 : \E t \in tables : t.m = modes[i].m /\ t.k = Order(modes[i].l, modes[i].m) /\ eig[i] = At2(t, modes[i].n2)
\* values in the files need no tables
NoTables == stage = "stopped" => \E i \in 1..3 : modes[i].file = 0
\* modes in another order: functions in that order
Swap(s) == <<s[2], s[3], s[1]>>
Permuted == stage = "done" => Eigen(Swap(modes), tables, env) = Swap(eig)
ASSUME \A a, b \in Keys : NameOf(a.m, a.k) = NameOf(b.m, b.k) => a = b
Draw == {[l |-> l, m |-> m, n2 |-> n, file |-> f] : l \in 1..3, m \in {-3, -2, -1, 0, 1, 2, 3}, n \in {-3, -2, -1, 0, 1, 2, 3}, f \in {0, 2, 6, 12}}
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq({[modes |-> <<x, y, z>>, base |-> b, env |-> e, hole |-> h] : x \in RandomSubset(Many, Draw), y \in RandomSubset(3, Draw), z \in RandomSubset(3, Draw),
                                            b \in RandomSubset(2, {"given", "", "nosource", "nowhere", "none"}), e \in RandomSubset(2, {"given", "nosource", "nowhere", "unset"}), h \in {0, 1}}))
===================================================================================
