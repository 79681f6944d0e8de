---------------------------------- MODULE MCStore -------------------------------
(* Every history of saves of small results in every mode, to configurations that *)
(* differ in one respect; and the separation of their paths.                     *)
EXTENDS Store, SequencesExt, Json, IOUtils
CONSTANTS Long
VARIABLES log
Ids == 1..4
Res(i) == [id |-> i, names |-> IF i % 2 = 1 THEN {"x", "y"} ELSE {"x"}]
Modes == {"w", "a", "r+"}
Files == {"f", "g"}
vars == <<disk, log>>
Init == StoreInit /\ log = <<>>
Next == /\ Len(log) < Long
        /\ \E p \in Files, mo \in Modes, i \in Ids : Save(p, mo, Res(i)) /\ log' = Append(log, [p |-> p, mode |-> mo, id |-> i])
Spec == Init /\ [][Next]_vars
Effective(p) == LET S == {k \in DOMAIN log : log[k].p = p /\ (log[k].mode # "r+" \/ \E q \in 1..k : log[q].p = p /\ log[q].mode # "r+")} IN S
\* write mode leaves only the last save
WriteIsFresh == \A p \in DOMAIN disk : LET S == Effective(p) IN S # {} =>
   LET k == CHOOSE k \in S : \A j \in S : j <= k IN
     /\ log[k].mode = "w" => disk[p].sets = Fresh(Res(log[k].id))
     /\ log[k].mode = "r+" => \A n \in Res(log[k].id).names : disk[p].sets[n] = log[k].id
     /\ disk[p].att = log[k].id
OnlySaved == \A p \in DOMAIN disk : \A n \in DOMAIN disk[p].sets : \E k \in DOMAIN log : log[k].p = p /\ log[k].id = disk[p].sets[n]
AppendKeeps == [][\A p \in DOMAIN disk : Len(log') > Len(log) /\ log'[Len(log')].p = p /\ log'[Len(log')].mode = "a" =>
                     \A n \in DOMAIN disk[p].sets : disk'[p].sets[n] = disk[p].sets[n]]_vars
NothingLost == [][\A p \in DOMAIN disk : Len(log') > Len(log) /\ log'[Len(log')].mode # "w" => DOMAIN disk[p].sets \subseteq DOMAIN disk'[p].sets]_vars
Separate == [][\A p \in DOMAIN disk : Len(log') > Len(log) /\ log'[Len(log')].p # p => disk'[p] = disk[p]]_vars
(* ------------------------- configurations ------------------------------------- *)
LMs == {<< <<2, 1, 1>>, <<2, 1, 1>> >>, << <<2, 1, 1>>, <<0, 0, 0>> >>, << <<2, 2, 2>>, <<-2, -1, -1>> >>, << <<3, 1, 2>>, <<2, 1, 1>> >>}
Configs == {[base |-> b, sub |-> s, extra |-> e, name |-> n, k |-> [i \in 1..3 |-> lm[1][i] - (IF lm[2][i] < 0 THEN -lm[2][i] ELSE lm[2][i])], l |-> lm[1], m |-> lm[2], form |-> f] :
              b \in {"r", "r.1"}, s \in {"", "s", "s.t", "s-1"}, e \in {"", "x", "_y"}, n \in {"mod", "mod-1", "mod.1", "mod 2", "M8_Xc0.09_d", "s"}, lm \in LMs,
              f \in {"", "/", "l", "lt", "none"}}
Valid == {c \in Configs : (c.form = "none" <=> c.sub = "" /\ c.form # "") \/ (c.sub # "" /\ c.form # "none")}
Id(c) == <<c.base, c.sub, c.extra, c.name, c.k, c.m>>
ASSUME \A b \in {"r"}, s \in {"", "s"}, lm \in LMs : \A c, d \in {v \in Valid : v.base = b /\ v.m = lm[2] /\ v.form = "" /\ v.extra = ""} :
         Path(c) = Path(d) <=> Id(c) = Id(d)
Diff(c, d) == Cardinality({i \in 1..6 : Id(c)[i] # Id(d)[i]})
ASSUME \A c, d \in {v \in Valid : v.base = "r" /\ v.form \in {"", "none"} /\ v.l = <<2, 1, 1>>} : Diff(c, d) = 1 => Path(c) # Path(d)
Hist(n) == [1..n -> [p : Files, mode : Modes, id : Ids]]
ASSUME ndJsonSerialize(IOEnv.SCEN,
   SetToSeq({[kind |-> "history", log |-> h] : h \in Hist(1) \union Hist(2) \union {g \in Hist(3) : g[1].p = "f" /\ g[1].mode # "r+" /\ g[2].id # g[1].id /\ g[3].id # g[2].id}})
   \o SetToSeq({[kind |-> "config", c |-> c] : c \in Valid}))
=================================================================================
