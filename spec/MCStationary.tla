------------------------------- MODULE MCStationary -----------------------------
EXTENDS Stationary, TLC, Json, IOUtils, FiniteSetsExt
CONSTANTS NMax, GMax, Rots, UnitsC
VARIABLE act
Units == {"HZ", "UHZ", "CYC_PER_DAY", "RAD_PER_SEC"}
Frames == {"INERTIAL", "COROT_I", "COROT_O"}
MD(f, m, n) == [frame |-> f, m |-> m, n |-> n]
Good(s, r) == \A i \in 1..3 : Corot(s[i], r) > 0
Gams == {<<a, b, c>> : a \in 1..GMax, b \in {-x : x \in 1..GMax}, c \in {-x : x \in 1..GMax}} \cup {<<-a, b, b>> : a \in 1..GMax, b \in 1..GMax}
Base == {[rot |-> r, ms |-> ms, n |-> <<a, b, c>>] : r \in Rots, ms \in {<<2,1,1>>, <<0,-1,1>>}, a \in 5..NMax, b \in 4..NMax, c \in {4, NMax}}
Init == \E b \in Base, u \in {"HZ"}, f \in {"INERTIAL", "COROT_I"}, g \in Gams :
          LET s == [i \in 1..3 |-> MD(IF i = 2 THEN "INERTIAL" ELSE f, b.ms[i], b.n[i])]
          IN /\ Good(s, b.rot) /\ g[1] + g[2] + g[3] # 0 /\ g[2] + g[3] # 0
             /\ rot = b.rot /\ req = u /\ tsec = 8 /\ ad = s /\ nad = s /\ gam = g /\ stage = "nad" /\ act = "init"
\* the same physical mode described in the other frame
Other(md, r) == IF md.frame = "INERTIAL" THEN MD("COROT_I", md.m, md.n - md.m * r) ELSE MD("INERTIAL", md.m, md.n + md.m * r)
Reframe == act' = "reframe" /\ stage = "nad" /\ \E i \in 1..3 : ad' = [ad EXCEPT ![i] = Other(ad[i], rot)] /\ UNCHANGED <<rot, req, tsec, nad, gam, stage>>
Requnit == act' = "unit" /\ stage = "nad" /\ req' \in UnitsC /\ UNCHANGED <<rot, tsec, ad, nad, gam, stage>>
SwapDaughters == act' = "swap" /\ stage = "nad" /\ ad' = <<ad[1], ad[3], ad[2]>> /\ nad' = <<nad[1], nad[3], nad[2]>> /\ gam' = <<gam[1], gam[3], gam[2]>> /\ UNCHANGED <<rot, req, tsec, stage>>
Next == Reframe \/ Requnit \/ SwapDaughters
Spec == Init /\ [][Next]_<<freq, act>>
\* frames and units never change the physics
FrameFree == [][(act' = "reframe") => (CorotF(ad)' = CorotF(ad) /\ InertF(ad)' = InertF(ad) /\ Quality(ad)' = Quality(ad) /\ QFac(ad)' = QFac(ad))]_<<freq, act>>
UnitFree == [][(act' = "unit") => (CorotD(ad)' = CorotD(ad) /\ Spin(ad)' = Spin(ad) /\ Quality(ad)' = Quality(ad) /\ QFac(ad)' = QFac(ad))]_<<freq, act>>
Sol == Solution(Quality(ad), QFac(ad), RInt(1))
\* the closed form is a fixed point of the amplitude equations, positive for both sign scenarios
ClosedFormIsFixedPoint == stage = "nad" =>
   /\ SolvesAmplitudeEquations(Sol, Quality(ad), QFac(ad), RInt(1))
   /\ \A i \in 1..3 : Sol[i][1] > 0
SwapSwapsAmplitudes == [][(act' = "swap") =>
   (Sol' = <<Sol[1], Sol[3], Sol[2]>> /\ QFac(ad)' = QFac(ad))]_<<freq, act>>
\* scenarios
Scen == {[rot |-> r, req |-> u, inunit |-> iu, frames |-> fr, ms |-> ms, dim |-> d] :
           r \in {0, 1, 3}, u \in Units \cup {"CPD"}, iu \in {"HZ", "UHZ", "CYC_PER_DAY", "RAD_PER_SEC", "NONE"},
           fr \in {<<a, b, c>> : a \in Frames, b \in {"INERTIAL", "COROT_I"}, c \in {"INERTIAL", "COROT_O"}},
           ms \in {<<2,1,1>>, <<0,-1,1>>, <<-2,-1,-1>>, <<2,2,2>>}, d \in BOOLEAN}
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq(Scen))
=================================================================================
