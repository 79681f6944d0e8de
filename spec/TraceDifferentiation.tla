--------------------------- MODULE TraceDifferentiation -------------------------
EXTENDS Differentiation, Conf
TInit == l = 1
None == <<<<0, 0>>>>
\* out[m]: derivative of order m - 1 at every point; None where the method has none
DerOk(e) == /\ Len(e.out) = e.max + 1 /\ e.kept
            /\ \A m \in 0..e.max : 
                 IF m = 0 THEN e.out[1] = [i \in DOMAIN e.y |-> RInt(e.y[i])]
                 ELSE IF m \notin Orders([e.q EXCEPT !.ord = 20]) THEN e.out[m + 1] = None
                 ELSE /\ Len(e.out[m + 1]) = Len(e.x)
                      /\ \A i \in DOMAIN e.x : Covered(e.q, Len(e.x), e.f, i) => e.out[m + 1][i] = AtMesh(e.q, m, e.x, e.y, e.f, i)
TStep == /\ \/ At("begin")
            \/ At("der") /\ DerOk(E)
         /\ l' = l + 1
TNext == \/ TStep
         \/ Has /\ ~ENABLED TStep /\ Reject
         \/ Finish
TSpec == TInit /\ [][TNext]_l
=================================================================================
