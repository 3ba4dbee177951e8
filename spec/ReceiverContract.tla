-------------------------- MODULE ReceiverContract --------------------------
(***************************************************************************)
(* What one receiver promises, whatever its kind: anycast, broadcast,      *)
(* event, timer, file watcher, merged, mapped, or a nesting of these.      *)
(*                                                                         *)
(* The environment makes messages available to it ("offer"), in one or     *)
(* several sources (merged receivers have more than one), and stops the    *)
(* sources or cuts the receiver itself.  The program waits for messages    *)
(* and takes them.  Step(c, e) is {} if the contract forbids event e in    *)
(* state c, else the singleton of the state after it.                      *)
(*                                                                         *)
(* Guards belong to the properties R01..R04 (all kinds), M01..M05 (merged  *)
(* receivers), E01 (events) and F01, F02 (file watchers), and are enforced *)
(* only for the property that is being decided, see On.                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANT Check
On(p) == p \in Check
OnAny(P) == Check \cap P # {}

(* State: coal   sets before a consumption coalesce (events)
          lvls   how many mapping functions are applied to each message
          q      q[s]: what source s has available: a sequence of sets of
                 messages, those of a set in no particular order.  Message 0
                 can't be told from others.
          bad    messages that are raised instead of returned
          stp    stp[s]: source s has stopped
          cut    the receiver itself was stopped: messages may be dropped
          must   it was cut when found ready: one message must come out still
          rdy    it was found ready, and nothing came out since
          ended  a stop was reported
          map    mapped messages that did not come out yet -> by how many
          age    age[s]: how many messages of other sources came out since
                 s had one at rest, -1: it had none
          post   post[s]: messages offered after the cut, -1: not at rest yet
          gone   the program dropped the receiver
          pend   pending operations, id -> [k, early, late]: called before the
                 cut, or after a stop was reported                        *)
C0(nsrc, coal, lvls) ==
    [coal |-> coal, lvls |-> lvls, q |-> [s \in 1..nsrc |-> <<>>], bad |-> {},
     stp |-> [s \in 1..nsrc |-> FALSE], cut |-> FALSE, must |-> FALSE, rdy |-> FALSE,
     ended |-> FALSE, map |-> <<>>, age |-> [s \in 1..nsrc |-> -1],
     post |-> [s \in 1..nsrc |-> -1], gone |-> FALSE, pend |-> <<>>]

If(cond, c) == IF cond THEN {c} ELSE {}
Drop(f, id) == [x \in DOMAIN f \ {id} |-> f[x]]
ToSet(s) == {s[i] : i \in 1..Len(s)}
Sources(c) == DOMAIN c.q
Receiving == {"recv", "anext", "ready"}

Empty(c) == \A s \in Sources(c) : c.q[s] = <<>>
AllStopped(c) == \A s \in Sources(c) : c.stp[s]
Drained(c) == Empty(c) /\ AllStopped(c)
Bound(c) == 4 * Cardinality(Sources(c)) + 4

(* ----------------------------- environment ----------------------------- *)
Offer(c, s, vs, bad) ==
    {[c EXCEPT !.q[s] = IF c.coal /\ @ # <<>> THEN @ ELSE Append(@, ToSet(vs)),
               !.bad = IF bad THEN @ \cup ToSet(vs) ELSE @,
               !.post[s] = IF @ >= 0 THEN @ + Len(vs) ELSE @]}
Cut(c) == [c EXCEPT !.cut = TRUE, !.must = (~c.cut /\ c.rdy) \/ @,
                    !.pend = [id \in DOMAIN @ |-> [@[id] EXCEPT !.early = TRUE]]]

(* ------------------------------- results ------------------------------- *)
\* The sources whose next message may be v, and those that have v at all
Heads(c, v) == {s \in Sources(c) : c.q[s] # <<>> /\ v \in Head(c.q[s])}
Have(c, v) == {s \in Sources(c) : \E i \in 1..Len(c.q[s]) : v \in c.q[s][i]}
Without(b, v) == IF b = {v} THEN <<>> ELSE <<b \ {v}>>
TakeHead(c, s, v) == [c EXCEPT !.q[s] = Without(Head(@), v) \o Tail(@)]
TakeAny(c, s, v) ==
    LET i == CHOOSE j \in 1..Len(c.q[s]) : v \in c.q[s][j]
    IN [c EXCEPT !.q[s] = SubSeq(@, 1, i - 1) \o Without(@[i], v) \o SubSeq(@, i + 1, Len(@))]

\* Message v of source s came out
CameOut(c, s, v) ==
    LET d == [c EXCEPT !.rdy = FALSE, !.must = FALSE,
                       !.map = IF v \in DOMAIN @ THEN Drop(@, v) ELSE @,
                       !.age = [x \in DOMAIN @ |->
                                   IF x = s THEN -1 ELSE IF @[x] >= 0 THEN @[x] + 1 ELSE -1]]
    IN If(On("M05") => \A x \in DOMAIN d.age : d.age[x] <= Bound(c), d)

\* v comes out, as a value or (bad) raised
Comes(c, v, bad) ==
    LET strict == OnAny({"R01", "R03", "M01", "M04", "E01", "F01"})
        well == /\ OnAny({"R01", "R03", "M01", "M04"}) => (bad <=> v \in c.bad)
                /\ (On("R03") /\ c.lvls > 0) =>
                      (bad \/ (v \in DOMAIN c.map /\ c.map[v] = c.lvls))
    IN IF ~well THEN {}
       ELSE IF Heads(c, v) # {} THEN LET s == CHOOSE x \in Heads(c, v) : TRUE IN CameOut(TakeHead(c, s, v), s, v)
       ELSE IF strict THEN {}
       ELSE IF Have(c, v) # {} THEN LET s == CHOOSE x \in Have(c, v) : TRUE IN CameOut(TakeAny(c, s, v), s, v)
       ELSE {[c EXCEPT !.rdy = FALSE, !.must = FALSE]}

\* The receiver reports that it stopped
Stops(c, wellFormed) ==
    If(/\ OnAny({"R02", "M02", "M04", "E01", "R03", "F02"}) => (c.cut \/ AllStopped(c))
       /\ OnAny({"R01", "R02", "R03", "M01", "M02", "M04", "E01", "F01"}) => (c.cut \/ Empty(c))
       /\ OnAny({"R01", "R02"}) => ~c.must
       /\ OnAny({"R02", "M03"}) => wellFormed,
       [c EXCEPT !.ended = TRUE])

\* Any other result: an undocumented exception, a cancellation nobody asked for
OtherOk(c) == /\ ~OnAny({"R01", "R03", "M01", "M03", "M04", "E01", "F02"})
              /\ OnAny({"R02", "M02"}) => ~(c.cut \/ AllStopped(c))

(* ----------------------------- operations ------------------------------ *)
Call(c, id, k) ==
    LET d == IF k = "stop" THEN Cut(c) ELSE c IN
    {[d EXCEPT !.pend = (id :> [k |-> k, early |-> FALSE, late |-> c.ended]) @@ @]}

Ret(c, id, res, v) ==
    IF id \notin DOMAIN c.pend THEN {} ELSE
    LET p == c.pend[id]
        d == [c EXCEPT !.pend = Drop(@, id)]
    IN CASE res = "ok" /\ p.k = "stop" -> {d}
         [] res = "val" /\ p.k \in {"recv", "anext"}    ->
                IF On("R02") /\ p.late /\ ~c.must THEN {} ELSE Comes(d, v, FALSE)
         [] res = "raised" /\ p.k \in {"recv", "anext"} -> Comes(d, v, TRUE)
         [] res = "stopped" /\ p.k = "recv"  -> Stops(d, TRUE)
         [] res = "stopped?" /\ p.k = "recv" -> Stops(d, FALSE)
         [] res = "end" /\ p.k = "anext"     -> Stops(d, TRUE)
         [] res = "true" /\ p.k = "ready"    ->
                If(/\ OnAny({"R01", "E01", "M01"}) => (~Empty(c) /\ ~(c.cut /\ c.ended))
                   /\ OnAny({"R02", "R03", "M02"}) => ~Drained(c),
                   [d EXCEPT !.rdy = TRUE])
         [] res = "false" /\ p.k = "ready"   -> Stops(d, TRUE)
         [] res = "cancelled" -> {d}
         [] OTHER -> If(OtherOk(c), d)

Consume(c, res, v) ==
    CASE res = "val"      -> Comes(c, v, FALSE)
      [] res = "raised"   -> Comes(c, v, TRUE)
      [] res \in {"stopped", "stopped?"} -> Stops(c, TRUE)
      [] OTHER            -> If(OtherOk(c), c)

\* The mapping function number l is called with message v
Apply(c, l, v) ==
    If(On("R03") => /\ Heads(c, v) # {}
                    /\ IF l = 1 THEN v \notin DOMAIN c.map
                       ELSE v \in DOMAIN c.map /\ c.map[v] = l - 1,
       [c EXCEPT !.map = (v :> l) @@ @])

\* The event loop is at rest.  Before a timer that was stopped while it was
\* waited for is due (~strict), those waiting need not know.
Quiet(c, strict) ==
    If(/\ \A id \in DOMAIN c.pend :
             LET p == c.pend[id] IN
             IF p.k = "stop" THEN ~OnAny({"M03", "R02"})
             ELSE (~strict /\ p.early)
                  \/ (/\ OnAny({"R01", "R03", "M01", "M02", "M04", "M05", "E01", "F01", "F02"}) => (Empty(c) \/ c.cut)
                      /\ OnAny({"R02", "R03", "M02", "M05"}) => ~Drained(c)
                      /\ OnAny({"R02", "M03", "M05"}) => ~c.cut)
       /\ On("R03") => c.map = <<>>,
       [c EXCEPT !.age = [s \in DOMAIN @ |-> IF @[s] = -1 /\ c.q[s] # <<>> THEN 0 ELSE @[s]],
                 !.post = [s \in DOMAIN @ |-> IF @[s] = -1 /\ c.cut THEN 0 ELSE @[s]]])

\* At rest: n background tasks exist
Tasks(c, n) == If(/\ On("M03") => ((c.gone \/ c.cut \/ Drained(c)) => n = 0)
                  /\ On("R04") => (c.gone => n = 0), c)
\* At rest: whether the dropped receiver still exists
Survives(c, is) == If(On("R04") => (c.gone => ~is), c)
\* At rest: source s itself holds n messages
Left(c, s, n) == If(On("M03") => n >= c.post[s], c)

Step(c, e) ==
    CASE e[1] = "call"    -> Call(c, e[2], e[3])
      [] e[1] = "ret"     -> Ret(c, e[2], e[3], e[4])
      [] e[1] = "consume" -> Consume(c, e[2], e[3])
      [] e[1] = "offer"   -> Offer(c, e[2], e[3], e[4])
      [] e[1] = "stop"    -> {[c EXCEPT !.stp[e[2]] = TRUE]}
      [] e[1] = "cut"     -> {Cut(c)}
      [] e[1] = "apply"   -> Apply(c, e[2], e[3])
      [] e[1] = "quiet"   -> Quiet(c, e[2])
      [] e[1] = "tasks"   -> Tasks(c, e[2])
      [] e[1] = "alive"   -> Survives(c, e[2])
      [] e[1] = "left"    -> Left(c, e[2], e[3])
      [] e[1] = "gone"    -> {[c EXCEPT !.gone = TRUE]}
      [] e[1] = "flags"   -> If(On("E01") => (e[2] <=> ~Empty(c)) /\ (e[3] <=> AllStopped(c)), c)
      [] OTHER            -> {}   \* "hang", "crash"
=============================================================================
