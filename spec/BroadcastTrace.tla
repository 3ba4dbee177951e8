---------------------------- MODULE BroadcastTrace ----------------------------
(* Histories of the real Broadcast against BroadcastContract (see Trie).       *)
EXTENDS BroadcastContract, Trie
VARIABLE c

Init == node = 1 /\ c = C0(FALSE)
Next == \E i \in 1..Len(Kids[node]) :
           LET n == Kids[node][i]  e == Ev[n] IN
           /\ node' = n
           /\ c' \in IF e[1] = "new" THEN {C0(e[2])} ELSE Step(c, e)
=============================================================================
