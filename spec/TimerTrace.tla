----------------------------- MODULE TimerTrace -----------------------------
(* Histories of real timers against TimerContract (see Trie).              *)
EXTENDS TimerContract, Trie
VARIABLE c

Init == node = 1 /\ c = C0(1, "all", 0, TRUE, 0, 0, 0)
Next == \E i \in 1..Len(Kids[node]) :
           LET n == Kids[node][i]  e == Ev[n] IN
           /\ node' = n
           /\ c' \in IF e[1] = "new" THEN {C0(e[2], e[3], e[4], e[5], e[6], 0, e[7])}
                     ELSE Step(c, e)
=============================================================================
