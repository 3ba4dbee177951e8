------------------------- MODULE BroadcastContract -------------------------
(***************************************************************************)
(* What a Broadcast channel promises, at the level of its API.             *)
(*                                                                         *)
(* Step(c, e) is the set of contract states after the observable event e   *)
(* in the contract state c.  Empty: the contract forbids e.                *)
(* A send takes effect somewhere between its call and its return: when its *)
(* message is first received, or else when it returns.                     *)
(* Guards are sliced by property (B01..B06), On(p), as in AnycastContract. *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANT Check
On(p) == p \in Check

(* State: resend  whether the channel resends the latest message
          latest  the last message sent, 0 if none
          closed  "no", "pending" (close was called), "yes"
          all     all[r]: the messages sent since receiver r was created and
                  not passed by what it received, oldest first
          n       n[r]: how many of these are in its buffer: the newest
          lim     lim[r]: the size of its buffer
          ovf     the receivers that overflowed
          len     len[r]: the length r reported last, -1: unknown
          gone    the receivers that were dropped
          dead    messages of failed or cancelled sends
          pend    pending operations, id -> [k, o, v, st]; st "l": the
                  message of a send was put in the buffers               *)
C0(resend) ==
    [resend |-> resend, latest |-> 0, closed |-> "no", all |-> <<>>, n |-> <<>>,
     lim |-> <<>>, ovf |-> {}, len |-> <<>>, gone |-> {}, dead |-> {}, pend |-> <<>>]

If(cond, c) == IF cond THEN {c} ELSE {}
Drop(f, id) == [x \in DOMAIN f \ {id} |-> f[x]]
Min(a, b) == IF a < b THEN a ELSE b
Receiving == {"recv", "anext", "ready"}
Recvs(c) == DOMAIN c.all \ c.gone

Put(c, v) ==
    [c EXCEPT !.latest = v,
              !.all = [r \in DOMAIN @ |-> Append(@[r], v)],
              !.n = [r \in DOMAIN @ |-> Min(@[r] + 1, c.lim[r])],
              !.ovf = @ \cup {r \in DOMAIN c.n : c.n[r] + 1 > c.lim[r]},
              !.len = [r \in DOMAIN @ |-> -1]]

Call(c, id, k, o, v) ==
    LET d == [c EXCEPT !.pend = (id :> [k |-> k, o |-> o, v |-> v, st |-> "p"]) @@ @]
    IN IF k = "close" THEN {[d EXCEPT !.closed = IF @ = "yes" THEN @ ELSE "pending"]}
       ELSE {d}

\* The pending sends that may have taken effect
Sending(c) == {id \in DOMAIN c.pend : c.pend[id].k = "send" /\ c.pend[id].st = "p"}
Effect(c, id) == Put([c EXCEPT !.pend[id].st = "l"], c.pend[id].v)

\* A new receiver, and the number of messages it starts with
NewIn(c, r, limit, len) ==
    LET should == IF c.resend /\ c.closed = "no" /\ c.latest # 0 THEN 1 ELSE 0
        start == IF len = 0 THEN <<>> ELSE <<c.latest>>
    IN If(On("B03") => len = should,
          [c EXCEPT !.all = (r :> start) @@ @, !.n = (r :> Len(start)) @@ @,
                    !.lim = (r :> limit) @@ @, !.len = (r :> len) @@ @])

NewReceiver(c, r, limit, len) ==
    UNION {NewIn(d, r, limit, len) : d \in {c} \cup {Effect(c, id) : id \in Sending(c)}}

\* v comes out of receiver r
Receives(c0, r, v) ==
    LET sent == {id \in Sending(c0) : c0.pend[id].v = v}
        c == IF sent = {} THEN c0 ELSE Effect(c0, CHOOSE id \in sent : TRUE)
        a == c.all[r]
        first == Len(a) - c.n[r] + 1
        at == {i \in 1..Len(a) : a[i] = v}
        through(i) == [c EXCEPT !.all[r] = SubSeq(a, i + 1, Len(a)),
                                !.n[r] = Min(@ - 1, Len(a) - i),
                                !.len[r] = -1]
        strict == Check \cap {"B01", "B02", "B03", "B06"} # {}
                  \/ (On("B04") /\ c.closed # "no")
    IN IF strict
       THEN IF On("B02") \/ r \notin c.ovf
            THEN If(c.n[r] > 0 /\ a[first] = v, through(first))
            ELSE {through(i) : i \in at}
       ELSE IF On("B04") /\ v \in c.dead THEN {}
       ELSE IF at = {} THEN {[c EXCEPT !.len[r] = -1]} ELSE {through(i) : i \in at}

\* Receiver r reports the stop
Stops(c, r, wellFormed) ==
    If(/\ On("B04") => (c.closed # "no" /\ wellFormed)
       /\ (Check \cap {"B01", "B02", "B04", "B06"} # {}) =>
            (c.n[r] = 0 \/ (r \in c.ovf /\ ~On("B02"))),
       c)

OtherOk == On("B02") \/ On("B06")   \* not decided there: unexpected exceptions

Ret(c, id, res, v) ==
    IF id \notin DOMAIN c.pend THEN {} ELSE
    LET p == c.pend[id]
        d == [c EXCEPT !.pend = Drop(@, id)]
        failed == If((On("B04") \/ On("B01")) => p.st = "p", [d EXCEPT !.dead = @ \cup {p.v}])
    IN
    CASE res = "ok" /\ p.k = "send" ->
            IF On("B04") => c.closed # "yes"
            THEN {IF p.st = "l" THEN d ELSE Put(d, p.v)} ELSE {}
      [] res = "ok" /\ p.k = "close" -> {[d EXCEPT !.closed = "yes"]}
      [] res = "closed" /\ p.k = "send" -> IF On("B04") => c.closed # "no" THEN failed ELSE {}
      [] res = "closed?" /\ p.k = "send" -> IF On("B04") THEN {} ELSE failed
      [] res = "val" /\ p.k \in {"recv", "anext"} -> Receives(d, p.o, v)
      [] res = "stopped" /\ p.k = "recv"  -> Stops(d, p.o, TRUE)
      [] res = "stopped?" /\ p.k = "recv" -> Stops(d, p.o, FALSE)
      [] res = "end" /\ p.k = "anext"     -> Stops(d, p.o, TRUE)
      [] res = "true" /\ p.k = "ready"    -> If(On("B01") => (c.n[p.o] > 0 \/ p.o \in c.ovf), d)
      [] res = "false" /\ p.k = "ready"   -> Stops(d, p.o, TRUE)
      [] res = "cancelled" -> IF p.k = "send" /\ p.st = "p" THEN failed ELSE {d}
      [] OTHER -> If(OtherOk, d)

Consume(c, r, res, v) ==
    CASE res = "val"      -> Receives(c, r, v)
      [] res = "stopped"  -> Stops(c, r, TRUE)
      [] res = "stopped?" -> Stops(c, r, FALSE)
      [] OTHER            -> If(OtherOk, c)

\* len(receiver)
Length(c, r, k) ==
    If(On("B02") => (k = c.n[r] \/ (Sending(c) # {} /\ k <= c.n[r] + Cardinality(Sending(c)))),
       [c EXCEPT !.len[r] = k])

\* The event loop is at rest
Quiet(c) ==
    If(\A id \in DOMAIN c.pend :
          LET p == c.pend[id] IN
          /\ (On("B05") /\ p.k \in Receiving) => (c.len[p.o] <= 0 /\ c.closed = "no")
          /\ ((On("B01") \/ On("B06")) /\ p.k \in Receiving) => (c.n[p.o] = 0 \/ p.o \in c.ovf)
          /\ On("B02") => p.k # "send"
          /\ On("B04") => (c.closed = "no" /\ p.k # "send"),
       c)

Step(c, e) ==
    CASE e[1] = "call"      -> Call(c, e[2], e[3], e[4], e[5])
      [] e[1] = "ret"       -> Ret(c, e[2], e[3], e[4])
      [] e[1] = "newr"      -> NewReceiver(c, e[2], e[3], e[4])
      [] e[1] = "consume"   -> Consume(c, e[2], e[3], e[4])
      [] e[1] = "len"       -> Length(c, e[2], e[3])
      [] e[1] = "drop"      -> {[c EXCEPT !.gone = @ \cup {e[2]}]}
      [] e[1] = "resend"    -> {[c EXCEPT !.resend = e[2]]}
      [] e[1] = "alive"     -> If(On("B06") => ~e[3], c)
      [] e[1] = "quiet"     -> Quiet(c)
      [] e[1] = "is_closed" -> If(On("B04") => ((c.closed = "no" => ~e[2]) /\ (c.closed = "yes" => e[2])), c)
      [] OTHER              -> {}   \* "hang", "crash"
=============================================================================
