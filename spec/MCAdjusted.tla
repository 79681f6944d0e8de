------------------------------- MODULE MCAdjusted -------------------------------
EXTENDS Adjusted, TLC, Json, IOUtils
CONSTANTS L, Y
VARIABLES v, y
Ys == {k - Y : k \in 0..(2 * Y)}
Init == v \in [1..1 -> BOOLEAN] /\ y = <<0>>
\* one more layer outward
Next == /\ Len(v) < L
        /\ \E b \in BOOLEAN, d \in Ys : v' = Append(v, b) /\ y' = Append(y, d)
Spec == Init /\ [][Next]_<<v, y>>
\* the adjusted total is the total less what the invalid zones contributed
Balance == AdjTotal(y, v) = y[Len(y)] - SumSeq(Taken(y, v))
\* flat through every invalid zone, up to the point where validity returns; parallel to the original through every valid one
Flat == \A k \in 1..Len(Borders(v)) : \A i \in Borders(v)[k][1]..Borders(v)[k][2] : Adj(y, v)[i + 1] = Adj(y, v)[Borders(v)[k][1] + 1]
Parallel == \A z \in RunsOf(v, TRUE) : \A i \in z[1]..z[2] : Adj(y, v)[i] - y[i] = Adj(y, v)[z[1]] - y[z[1]]
AllOrNothing == /\ (\A i \in 1..Len(v) : v[i]) => Adj(y, v) = y
                /\ (\A i \in 1..Len(v) : ~v[i]) => \A i \in 1..Len(v) : Adj(y, v)[i] = y[1]
\* terms can be adjusted one by one
Linear == \A c \in {2, -1} : Adj([i \in 1..Len(y) |-> y[i] + c * (i * i - 1)], v) = [i \in 1..Len(y) |-> Adj(y, v)[i] + c * Adj([j \in 1..Len(y) |-> j * j - 1], v)[i]]
\* outer layers never change what was accumulated further in
Inner == [][\A i \in 1..Len(y) : Adj(y', v')[i] = Adj(y, v)[i]]_<<v, y>>
ASSUME ndJsonSerialize(IOEnv.SCEN, SetToSeq({[kinds |-> w] : w \in UNION {[1..n -> {"V", "I"}] : n \in 2..7}}))
=================================================================================
