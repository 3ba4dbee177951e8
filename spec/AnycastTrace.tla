---------------------------- MODULE AnycastTrace ----------------------------
(* Histories of the real Anycast against AnycastContract (see Trie).       *)
EXTENDS AnycastContract, Trie
VARIABLE c

Init == node = 1 /\ c = C0(0, 0)
Next == \E i \in 1..Len(Kids[node]) :
           LET n == Kids[node][i]  e == Ev[n] IN
           /\ node' = n
           /\ c' \in IF e[1] = "new" THEN {C0(e[2], e[3])} ELSE Step(c, e)
=============================================================================
