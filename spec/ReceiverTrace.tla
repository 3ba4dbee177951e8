---------------------------- MODULE ReceiverTrace ----------------------------
(* Histories of real receivers against ReceiverContract (see Trie).            *)
EXTENDS ReceiverContract, Trie
VARIABLE c

Init == node = 1 /\ c = C0(1, FALSE, 0)
Next == \E i \in 1..Len(Kids[node]) :
           LET n == Kids[node][i]  e == Ev[n] IN
           /\ node' = n
           /\ c' \in IF e[1] = "new" THEN {C0(e[2], e[3], e[4])} ELSE Step(c, e)
=============================================================================
