------------------------------ MODULE MCTriadGate -------------------------------
EXTENDS TriadGate, TLC, Json, IOUtils
CONSTANTS GMax, QMax, LMax
LM(n) == {lm \in (0..n) \X (-n..n) : Abs(lm[2]) <= lm[1]}
ModeSets == {<<a, b, c>> : a \in LM(LMax), b \in LM(LMax), c \in LM(LMax)}
FewModes == {<< <<2,2>>, <<1,1>>, <<1,1>> >>, << <<2,0>>, <<1,1>>, <<1,1>> >>, << <<3,2>>, <<1,1>>, <<1,1>> >>, << <<2,-1>>, <<2,1>>, <<2,-2>> >>}
G == -GMax..GMax
Qs == {<<n, d>> \in (-QMax..QMax) \X {1, 2} : TRUE}
Triads == { [modes |-> ms, conj |-> DefaultConj, g |-> <<a, b, c>>, qn |-> q[1], qd |-> q[2], two |-> t] :
              ms \in FewModes, a \in G, b \in G, c \in G, q \in Qs, t \in BOOLEAN }
\* boundary cases of the inequalities are left to real arithmetic only
Relevant(t) == /\ t.two => t.g[2] = t.g[3]
               /\ (Parametric(t.g) /\ ~t.two) => Quartic(t.g, t.qn, t.qd) # 0
               /\ (Parametric(t.g) /\ t.two) =>
                    LET th == ThetaP(t.g)  d2 == th[2] * th[2]
                    IN /\ t.qn * t.qn * (TwoBase(t.g) - d2) # t.qd * t.qd * (TwoBase(t.g) + d2)
                       /\ t.qn * t.qn * (TwoBase(t.g) + d2) # t.qd * t.qd * (TwoBase(t.g) - d2)
Band(t) == t.two /\ Parametric(t.g) /\ TwoModeSwapped(t.g, t.qn, t.qd) # TwoModeParametricStable(t.g, t.qn, t.qd)
Init == /\ tr \in {t \in Triads : Relevant(t)} /\ az = "?" /\ mer = "?" /\ lin = "?" /\ verdict = "?" /\ pc = "az"
Next == CheckAz \/ CheckMer \/ CheckLin \/ Decide
Spec == Init /\ [][Next]_gate
\* the criteria are those of the linearised flow: Routh-Hurwitz on the exact Jacobian
\* (an isolated q = 0 resonance keeps its phase equation degenerate only when rates vanish)
CriterionIsFlowStability ==
  (pc = "az" /\ tr.g[1] # 0 /\ tr.g[2] # 0 /\ tr.g[3] # 0) =>
    /\ (Parametric(tr.g) /\ ~tr.two) => (ThreeModeStable(tr.g, tr.qn, tr.qd) <=> Stable4(Jac4(tr.g, tr.qn, tr.qd)))
    /\ (Direct(tr.g) /\ ~tr.two) => ~Stable4(Jac4(tr.g, tr.qn, tr.qd))
    /\ (Parametric(tr.g) /\ tr.two) => (TwoModeParametricStable(tr.g, tr.qn, tr.qd) <=> Stable3(Jac3(tr.g, tr.qn, tr.qd)))
    /\ (Direct(tr.g) /\ tr.two) => (TwoModeDirectStable(tr.g) <=> Stable3(Jac3(tr.g, tr.qn, tr.qd)))
SelScen == {[modes |-> ms] : ms \in ModeSets}
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq({[kind |-> "gate", g |-> t.g, qn |-> t.qn, qd |-> t.qd, two |-> t.two, band |-> Band(t), modes |-> t.modes] : t \in {x \in Triads : Relevant(x)}})
        \o SetToSeq({[kind |-> "sel", modes |-> s.modes] : s \in SelScen}))
=================================================================================
