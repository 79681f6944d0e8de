---------------------------------- MODULE MCGrid --------------------------------
(* All interleavings of a grid computation over small stars.                     *)
EXTENDS Grid, TLC, Json, IOUtils
CONSTANTS Big
Shapes == {<< <<5, 6>>, <<>> >>, << <<5, 6>>, <<6, 7>> >>, << <<5, 5>>, <<5, 6>> >>} \union (IF Big THEN {<< <<5, 7>>, <<>> >>, << <<5, 7>>, <<6, 7>> >>} ELSE {})
LMs == {<< <<2, 1, 1>>, <<2, 1, 1>> >>, << <<2, 1, 1>>, <<0, 0, 0>> >>, << <<2, 2, 2>>, <<2, 1, 1>> >>, << <<2, 1, 1>>, <<1, 1, 1>> >>}
Signs == {"drive", "damp", "mixed", "odd"}
Growth(s, parent, n) == CASE s = "drive" -> IF parent THEN 1 ELSE -2
                          [] s = "damp" -> IF parent THEN -2 ELSE 1
                          [] s = "mixed" -> IF parent THEN (IF n % 2 = 0 THEN -1 ELSE 2) ELSE -2
                          [] s = "odd" -> IF n % 2 = 0 THEN 1 ELSE -3
Star(s, lm, far) ==
  SetToSeq({[l |-> lm[1][1], m |-> lm[2][1], n |-> n, frame |-> "COROT", f |-> far - n, fn |-> far - n, g |-> Growth(s, TRUE, n)] : n \in 1..2}
           \union {[l |-> lm[1][i], m |-> lm[2][i], n |-> n, frame |-> "COROT", f |-> 10 - n, fn |-> 10 - n, g |-> Growth(s, FALSE, n)] : n \in 5..7, i \in 2..3})
Worlds == {[p |-> <<1, hi>>, d1 |-> sh[1], d2 |-> sh[2], l |-> lm[1], m |-> lm[2], signs |-> s, far |-> far, stat |-> st, poly |-> po,
            adiab |-> adb, cplx |-> cx, conj |-> cj, rot |-> 0, req |-> "HZ", tsec |-> 1, modes |-> Star(s, lm, far)] :
             hi \in 1..2, sh \in Shapes, lm \in LMs, s \in Signs, far \in {12, 20}, st \in BOOLEAN, po \in BOOLEAN,
             adb \in BOOLEAN, cx \in BOOLEAN, cj \in {<<>>, <<FALSE, TRUE, TRUE>>}}
Chosen == {v \in Worlds : v.poly => v.stat /\ v.adiab /\ v.conj = <<>>}
\* the order of the triads is explored for every star, in the simplest setting of the remaining switches
Explored == {v \in Chosen : ~v.cplx /\ v.conj = <<>> /\ (v.p = <<1, 1>> \/ (Big /\ v.adiab /\ v.far = 12 /\ Len(v.d2) = 0))}
Init == /\ GridInit
Keep == UNCHANGED <<freq, gate>>
Next == \/ phase = "idle" /\ (\E v \in Explored : Begin(v)) /\ Keep
        \/ phase = "run" /\ (\E n1 \in Span(w.p), x, y \in Span(w.d1) \union Span(w.d2), s \in Sources : Load(s, <<n1, x, y>>)) /\ Keep
        \/ pend # <<>> /\ Build(pend) /\ Keep
        \/ Compute /\ Keep
        \/ End /\ Keep
Spec == Init /\ [][Next]_<<world, freq, gate>> /\ WF_<<world, freq, gate>>(Next)
\* the computation never gets stuck: whatever has been done, all the rest can still be done
CanFinish == phase = "run" /\ Complete /\ visited # AllKeys => \E n1 \in Span(w.p), x, y \in Span(w.d1) \union Span(w.d2) : PairWanted(x, y) /\ Key(<<n1, x, y>>) \notin visited
Ends == (phase = "run") ~> (phase = "end")
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq({[p |-> v.p, d1 |-> v.d1, d2 |-> v.d2, l |-> v.l, m |-> v.m, signs |-> v.signs, stat |-> v.stat,
                         poly |-> v.poly, adiab |-> v.adiab, cplx |-> v.cplx, conj |-> v.conj] : v \in Chosen}))
=================================================================================
