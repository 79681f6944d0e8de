--------------------------------- MODULE UserPoll -------------------------------
(* Choosing one of n offered combinations by typing its number and confirming.   *)
EXTENDS Integers, Sequences
VARIABLES pn, pc, cand, ret
poll == <<pn, pc, cand, ret>>
\* a typed line: [num: TRUE iff it reads as an integer, val: that integer]
Offered(n, x) == x.num /\ x.val \in 0..(n - 1)
Start(n) == pn' = n /\ pc' = "ask" /\ cand' = -1 /\ ret' = -1
Type(x) == /\ pc = "ask"
           /\ IF Offered(pn, x) THEN pc' = "confirm" /\ cand' = x.val ELSE pc' = "ask" /\ cand' = -1
           /\ UNCHANGED <<pn, ret>>
Confirm(yes) == /\ pc = "confirm"
                /\ IF yes THEN pc' = "done" /\ ret' = cand ELSE pc' = "ask" /\ ret' = -1
                /\ cand' = -1 /\ UNCHANGED pn
OnlyOfferedReturned == pc = "done" => ret \in 0..(pn - 1)
NothingBeforeConfirmation == pc # "done" => ret = -1
=================================================================================
