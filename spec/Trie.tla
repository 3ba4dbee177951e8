-------------------------------- MODULE Trie --------------------------------
(***************************************************************************)
(* Infrastructure of every trace specification in this directory.          *)
(*                                                                         *)
(* The histories recorded from the real code are merged into a prefix tree *)
(* (harness/trie.py).  Node 1 is the root; Ev[n] is the event on the edge  *)
(* into node n, Kids[n] the children of n.  A state of a trace             *)
(* specification is a pair <<node, abstract state of the contract>>: the   *)
(* histories ending in `node' are explainable by the contract iff some     *)
(* state with that node is reachable.  Mark (used as CONSTRAINT) records   *)
(* the nodes reached; the POSTCONDITION prints every node that was not     *)
(* reached although its parent was: there the implementation did something *)
(* no behaviour of the contract allows.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

T == JsonDeserialize("trie.json")
Kids == T.kids
Ev == T.ev
Par == T.par
N == Len(Par)

VARIABLE node

Mark == TLCSet(node, 1)
ASSUME \A i \in 1..N : TLCSet(N - i + 1, 0)

Report == LET bad == {n \in 2..N : TLCGet(n) = 0 /\ TLCGet(Par[n]) = 1}
          IN  /\ PrintT(<<"NODES", N, Cardinality({n \in 1..N : TLCGet(n) = 1})>>)
              /\ \A n \in bad : PrintT(<<"REJECT", n>>)
=============================================================================
