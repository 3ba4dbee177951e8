-------------------------- MODULE AnycastContract --------------------------
(***************************************************************************)
(* What an Anycast channel promises, at the level of its API.              *)
(*                                                                         *)
(* Operations (send, recv, anext, ready, close) are called and return; in  *)
(* between they are pending, and take effect at some unobservable instant. *)
(* Step(c, e) is the set of contract states after the observable event e   *)
(* in the contract state c: empty if the contract forbids e, and never     *)
(* more than one.  The same operator judges the design (AnycastImpl,       *)
(* exhaustively) and the code (AnycastTrace, on recorded histories).       *)
(*                                                                         *)
(* Each guard belongs to one property (A01..A05, see DESIGN.md) and is     *)
(* enforced only if that property is being decided, On(p): a history that  *)
(* is rejected with Check = {p} violates p.                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANT Check
On(p) == p \in Check

(* State: limit   size of the buffer
          open    messages whose send is pending, and that were not received
          done    those whose send completed, and that were not received
          early   those that were received while their send was pending
          dead    those whose send failed or was cancelled
          bef     bef[v], for v in open or done: messages whose send had
                  completed when the send of v was called, and that were not
                  received -- these must be taken before v
          late    messages not received before which some later one was: they
                  were taken by operations that did not return yet
          park    park[r]: whether ready() left a message in receiver r:
                  "no", "yes", or "maybe" (the ready() was cancelled)
          skip    skip[r]: messages the parked one can't be, late before
                  the ready() was called
          closed  "no", "pending" (close was called), "yes"
          pend    pending operations, id -> [k, o, v, skip]               *)
C0(lim, nr) ==
    [limit |-> lim, open |-> {}, done |-> {}, early |-> {}, dead |-> {}, late |-> {},
     bef |-> <<>>, park |-> [r \in 1..nr |-> "no"], skip |-> [r \in 1..nr |-> {}],
     closed |-> "no", pend |-> <<>>]

If(cond, c) == IF cond THEN {c} ELSE {}
Drop(f, id) == [x \in DOMAIN f \ {id} |-> f[x]]
Receiving == {"recv", "anext", "ready"}

Parked(c, how) == Cardinality({r \in DOMAIN c.park : c.park[r] = how})
\* How many messages can be in the buffer, at least and at most.  Messages
\* that a pending receive took but did not return yet count as in there.
Most(c) == Cardinality(c.done) - Parked(c, "yes")
Least(c) == Most(c) - Parked(c, "maybe")
PendingReceives(c) == Cardinality({id \in DOMAIN c.pend : c.pend[id].k \in Receiving})

(* --------------------------------- calls ------------------------------- *)
Call(c, id, k, o, v) ==
    LET d == [c EXCEPT !.pend = (id :> [k |-> k, o |-> o, v |-> v,
                                        skip |-> IF k \in Receiving THEN c.late ELSE {}]) @@ @]
    IN {CASE k = "send"  -> [d EXCEPT !.open = @ \cup {v},
                                      !.bef = (v :> c.done) @@ @]
          [] k = "close" -> [d EXCEPT !.closed = IF @ = "yes" THEN @ ELSE "pending"]
          [] OTHER       -> d}

(* -------------------------------- returns ------------------------------ *)
\* v comes out of receiver o, for an operation that could not get any of skip
Receives(c, o, v, skip) ==
    LET d == [c EXCEPT !.park[o] = "no"]
    IN If(/\ On("A01") => v \in (c.open \cup c.done)
          /\ On("A02") => v \notin skip
          /\ On("A05") => v \notin c.dead,
          IF v \notin (c.open \cup c.done) THEN d
          ELSE [d EXCEPT !.open = @ \ {v}, !.done = @ \ {v},
                         !.early = IF v \in c.open THEN @ \cup {v} ELSE @,
                         !.late = (@ \cup c.bef[v]) \ {v},
                         !.bef = [x \in DOMAIN @ \ {v} |-> @[x] \ {v}]])

\* Receiver o reports the stop.  Nothing must be left for it: what was sent and
\* not received is with other receivers.
Stops(c, o, wellFormed) ==
    If(/\ On("A05") => c.closed # "no" /\ wellFormed
       /\ On("A01") \/ On("A03") \/ On("A05") =>
            /\ c.park[o] # "yes"
            /\ Cardinality(c.done) <=
                  Cardinality({r \in DOMAIN c.park \ {o} : c.park[r] # "no"})
                  + PendingReceives(c),
       [c EXCEPT !.park[o] = "no"])

\* Any exception but the documented ones, or a result of the wrong type
OtherOk == ~On("A01") /\ ~On("A04") /\ ~On("A05")

Settled(c, v) == [c EXCEPT !.open = @ \ {v}, !.early = @ \ {v}]
SendOk(c, id, v) ==
    If(/\ On("A03") => Least(c) + (IF v \in c.early THEN 0 ELSE 1) - PendingReceives(c) <= c.limit
       /\ On("A05") => c.closed # "yes",
       [Settled(c, v) EXCEPT !.done = IF v \in c.early THEN @ ELSE @ \cup {v}])

SendFails(c, v) ==
    If(On("A01") \/ On("A05") => v \notin c.early,
       [Settled(c, v) EXCEPT !.dead = @ \cup {v}, !.late = @ \ {v},
                             !.bef = [x \in DOMAIN @ \ {v} |-> @[x]]])

Ret(c, id, res, v) ==
    IF id \notin DOMAIN c.pend THEN {} ELSE
    LET p == c.pend[id]
        d == [c EXCEPT !.pend = Drop(@, id)]
        skip == IF p.k \in Receiving /\ c.park[p.o] # "no" THEN c.skip[p.o] \cap p.skip ELSE p.skip
    IN
    CASE res = "ok" /\ p.k = "send"   -> SendOk(d, id, p.v)
      [] res = "ok" /\ p.k = "close"  -> {[d EXCEPT !.closed = "yes"]}
      [] res = "closed" /\ p.k = "send" ->
            IF On("A05") => c.closed # "no" THEN SendFails(d, p.v) ELSE {}
      [] res = "closed?" /\ p.k = "send" ->
            IF On("A05") THEN {} ELSE SendFails(d, p.v)
      [] res = "val" /\ p.k \in {"recv", "anext"} -> Receives(d, p.o, v, skip)
      [] res = "stopped" /\ p.k = "recv"  -> Stops(d, p.o, TRUE)
      [] res = "stopped?" /\ p.k = "recv" -> Stops(d, p.o, FALSE)
      [] res = "end" /\ p.k = "anext"     -> Stops(d, p.o, TRUE)
      [] res = "true" /\ p.k = "ready"    ->
            {[d EXCEPT !.park[p.o] = "yes", !.skip[p.o] = skip]}
      [] res = "false" /\ p.k = "ready"   -> Stops(d, p.o, TRUE)
      [] res = "cancelled" /\ p.k = "send"  -> SendFails(d, p.v)
      [] res = "cancelled" /\ p.k = "ready" ->
            {IF c.park[p.o] = "no"
             THEN [d EXCEPT !.park[p.o] = "maybe", !.skip[p.o] = skip] ELSE d}
      [] res = "cancelled" -> {d}
      [] OTHER -> If(OtherOk, d)

\* consume() called directly after the receiver was found ready
Consume(c, o, res, v) ==
    CASE res = "val"      -> IF On("A01") => c.park[o] = "yes"
                             THEN Receives(c, o, v, c.skip[o]) ELSE {}
      [] res = "stopped"  -> Stops(c, o, TRUE)
      [] res = "stopped?" -> Stops(c, o, FALSE)
      [] OTHER            -> If(OtherOk, c)

\* The event loop is at rest: what is still pending can never proceed by itself.
Quiet(c) ==
    If(/\ On("A04") =>
             \A id \in DOMAIN c.pend :
                LET p == c.pend[id] IN
                /\ c.closed = "no"
                /\ (p.k \in Receiving => Least(c) <= 0 /\ c.park[p.o] # "yes")
                /\ (p.k = "send" => Most(c) >= c.limit)
       /\ On("A05") => (c.closed # "no" => c.pend = <<>>),
       c)

Step(c, e) ==
    CASE e[1] = "call"      -> Call(c, e[2], e[3], e[4], e[5])
      [] e[1] = "ret"       -> Ret(c, e[2], e[3], e[4])
      [] e[1] = "consume"   -> Consume(c, e[2], e[3], e[4])
      [] e[1] = "quiet"     -> Quiet(c)
      [] e[1] = "is_closed" -> If(On("A05") => (c.closed = "no" => ~e[2]) /\ (c.closed = "yes" => e[2]), c)
      [] e[1] = "limit"     -> If(On("A03") => c.limit = e[2], c)
      [] OTHER              -> {}   \* "hang": the code did not come to rest
=============================================================================
