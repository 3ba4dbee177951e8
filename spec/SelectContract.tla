--------------------------- MODULE SelectContract ---------------------------
(***************************************************************************)
(* What select() promises, to a program that iterates over it, leaves the  *)
(* iteration in any way, starts a new one, and receives directly from the  *)
(* receivers when there is none.                                           *)
(*                                                                         *)
(* Step(c, e) is {} if the contract forbids event e in state c, else the   *)
(* singleton of the state after it.  Guards belong to S01..S06.            *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANT Check
On(p) == p \in Check
OnAny(P) == Check \cap P # {}

(* State: coal   coal[i]: messages of receiver i coalesce (events)
          q      q[i]: what it has available: a sequence of sets of messages,
                 those of a set in no particular order
          bad    messages that are raised by consume()
          stp    stp[i]: it has stopped
          cut    cut[i]: it was stopped and may have dropped messages
          fail   fail[i]: ready() raises
          on     the receivers selected from, {}: no iteration
          st     the iteration: "none", "body" the program has control,
                 "wait" for the next selection, "over" ended by itself,
                 "close" being closed
          rep    those that were reported stopped in this iteration
          cur    the current selection <<receiver, outcome, message>>, or <<>>
          hdl    it was matched
          age    age[i]: how many selections of others since i was ready at
                 rest, -1: it was not
          pend   pending receive()s, id -> receiver                        *)
C0(coal) ==
    LET I == DOMAIN coal IN
    [coal |-> coal, q |-> [i \in I |-> <<>>], bad |-> {}, stp |-> [i \in I |-> FALSE],
     cut |-> [i \in I |-> FALSE], fail |-> [i \in I |-> FALSE], on |-> {}, st |-> "none",
     rep |-> {}, cur |-> <<>>, hdl |-> FALSE, age |-> [i \in I |-> -1], pend |-> <<>>]

If(cond, c) == IF cond THEN {c} ELSE {}
Drop(f, id) == [x \in DOMAIN f \ {id} |-> f[x]]
ToSet(s) == {s[i] : i \in 1..Len(s)}
Bound(c) == 4 * Cardinality(c.on) + 4

Gone(c, i) == c.stp[i] /\ (c.q[i] = <<>> \/ c.cut[i])
\* There is something to select from i
Ready(c, i) == i \notin c.rep /\ ((c.q[i] # <<>> /\ ~c.cut[i]) \/ Gone(c, i))
Failing(c, S) == \E i \in S : c.fail[i]

(* ----------------------------- environment ----------------------------- *)
Offer(c, i, vs, bad) ==
    {[c EXCEPT !.q[i] = IF c.coal[i] /\ @ # <<>> THEN @ ELSE Append(@, ToSet(vs)),
               !.bad = IF bad THEN @ \cup ToSet(vs) ELSE @]}

(* ------------------------------- messages ------------------------------ *)
Have(c, i, v) == {j \in 1..Len(c.q[i]) : v \in c.q[i][j]}
Without(b, v) == IF b = {v} THEN <<>> ELSE <<b \ {v}>>
TakeAt(c, i, j, v) ==
    [c EXCEPT !.q[i] = SubSeq(@, 1, j - 1) \o Without(@[j], v) \o SubSeq(@, j + 1, Len(@))]
\* Message v of receiver i came out
Comes(c, i, v, bad) ==
    IF OnAny({"S01", "S06"}) /\ (bad # (v \in c.bad)) THEN {}
    ELSE IF c.q[i] # <<>> /\ v \in Head(c.q[i]) THEN {TakeAt(c, i, 1, v)}
    ELSE IF OnAny({"S01", "S06"}) THEN {}
    ELSE IF Have(c, i, v) # {} THEN {TakeAt(c, i, CHOOSE j \in Have(c, i, v) : TRUE, v)}
    ELSE {c}

(* ------------------------------ iteration ------------------------------ *)
Open(c, is) == {[c EXCEPT !.on = ToSet(is), !.st = "body", !.rep = {}, !.cur = <<>>, !.hdl = FALSE,
                          !.age = [i \in DOMAIN @ |-> -1]]}

\* Not after an unhandled selection
MayGoOn(c) == On("S03") => (c.cur = <<>> \/ c.hdl)

\* Receiver i is selected
RECURSIVE Got(_, _, _, _)
Got(c, i, out, v) ==
    IF c.st # "wait" \/ ~MayGoOn(c) THEN {}
    ELSE IF i \notin c.on THEN If(~OnAny({"S01", "S02"}), [c EXCEPT !.st = "body"]) ELSE
    LET aged == [c EXCEPT !.st = "body", !.cur = <<i, out, v>>, !.hdl = FALSE,
                          !.age = [x \in DOMAIN @ |->
                                      IF x = i THEN -1 ELSE IF @[x] >= 0 THEN @[x] + 1 ELSE -1]]
        first == IF c.q[i] = <<>> THEN {} ELSE Head(c.q[i])
    IN IF On("S02") /\ i \in c.rep THEN {}
       \* the program does not look at what was selected
       ELSE IF out = "some" THEN
            LET any == UNION {Got(c, i, IF x \in c.bad THEN "raised" ELSE "val", x) : x \in first}
                       \cup (IF Gone(c, i) THEN Got(c, i, "stopped", 0) ELSE {})
            IN IF any = {} /\ ~OnAny({"S01", "S02", "S06"}) THEN {aged} ELSE any
       ELSE IF On("S05") /\ \E x \in c.on : aged.age[x] > Bound(c) THEN {}
       ELSE CASE out = "val"     -> Comes(aged, i, v, FALSE)
              [] out = "raised"  -> Comes(aged, i, v, TRUE)
              [] out = "stopped" -> If(/\ OnAny({"S01", "S02"}) => Gone(c, i)
                                       /\ On("S06") => c.stp[i],
                                       [aged EXCEPT !.rep = @ \cup {i}])
              [] OTHER           -> If(~OnAny({"S01", "S02", "S06"}), aged)

Over(c) == [c EXCEPT !.st = "over"]
End(c) == If(/\ c.st = "wait" /\ MayGoOn(c)
             /\ OnAny({"S02", "S06"}) => c.rep = c.on, Over(c))
Unhandled(c, cur) ==
    If(/\ c.st = "wait"
       /\ On("S03") => (/\ c.cur # <<>> /\ ~c.hdl
                        /\ (cur = c.cur \/ (cur[1] = c.cur[1] /\ cur[2] = "some")))
       /\ On("S06") => c.cur # <<>> /\ ~c.hdl, Over(c))
\* ready() of i raised
Error(c, i) == If(c.st = "wait" /\ MayGoOn(c) /\ (On("S06") => (i \in c.on /\ c.fail[i])), Over(c))
\* Errors came up as the iteration was ending
Group(c) == If(On("S06") => Failing(c, c.on), Over(c))

Match(c, i, answer) ==
    If(On("S03") => (answer <=> (c.cur # <<>> /\ c.cur[1] = i)),
       [c EXCEPT !.hdl = @ \/ (c.cur # <<>> /\ c.cur[1] = i)])
\* Looking at the current selection again
Still(c, cur) == If(OnAny({"S01", "S06"}) => cur = c.cur, c)

Leave(c) == [c EXCEPT !.on = {}, !.st = "none", !.cur = <<>>, !.age = [i \in DOMAIN @ |-> -1]]

(* --------------------------- direct receiving -------------------------- *)
Ret(c, id, res, v) ==
    IF id \notin DOMAIN c.pend THEN {} ELSE
    LET i == c.pend[id]
        d == [c EXCEPT !.pend = Drop(@, id)]
    IN CASE res = "val"     -> Comes(d, i, v, FALSE)
         [] res = "raised"  -> Comes(d, i, v, TRUE)
         [] res = "stopped" -> If(OnAny({"S01", "S02"}) => Gone(c, i), d)
         [] res = "cancelled" -> {d}
         [] OTHER           -> If(~OnAny({"S01", "S04"}), d)

(* --------------------------------- rest -------------------------------- *)
Quiet(c) ==
    If(/\ c.st = "wait" =>
            /\ OnAny({"S01", "S05"}) => (\A i \in c.on : c.q[i] # <<>> => (i \in c.rep \/ c.cut[i]))
            /\ OnAny({"S02", "S05"}) => (\A i \in c.on : ~Ready(c, i))
            /\ OnAny({"S02", "S05"}) => c.rep # c.on
            /\ On("S06") => ~Failing(c, c.on \ c.rep)   \* who stopped is not asked again
            /\ On("S03") => (c.cur = <<>> \/ c.hdl)
       /\ OnAny({"S04"}) => c.st # "close"
       /\ OnAny({"S01", "S04"}) =>
            (\A id \in DOMAIN c.pend :
                LET i == c.pend[id] IN (c.q[i] = <<>> \/ c.cut[i]) /\ ~c.stp[i]),
       [c EXCEPT !.age = [i \in DOMAIN @ |-> IF @[i] = -1 /\ i \in c.on /\ Ready(c, i) THEN 0 ELSE @[i]]])

\* At rest: n tasks that select() started exist
Tasks(c, n) == If(On("S04") => (c.st \in {"none", "over"} => n = 0), c)

Step(c, e) ==
    CASE e[1] = "offer"     -> Offer(c, e[2], e[3], e[4])
      [] e[1] = "stop"      -> {[c EXCEPT !.stp[e[2]] = TRUE, !.cut[e[2]] = e[3]]}
      [] e[1] = "fail"      -> {[c EXCEPT !.fail[e[2]] = TRUE]}
      [] e[1] = "heal"      -> {[c EXCEPT !.fail = [i \in DOMAIN @ |-> FALSE]]}
      [] e[1] = "open"      -> Open(c, e[2])
      [] e[1] = "next"      -> {[c EXCEPT !.st = "wait"]}
      [] e[1] = "got"       -> Got(c, e[2], e[3], e[4])
      [] e[1] = "end"       -> End(c)
      [] e[1] = "unhandled" -> Unhandled(c, e[2])
      [] e[1] = "error"     -> Error(c, e[2])
      [] e[1] = "group"     -> Group(c)
      [] e[1] = "cancelled" -> {Over(c)}
      [] e[1] = "match"     -> Match(c, e[2], e[3])
      [] e[1] = "still"     -> Still(c, e[2])
      [] e[1] = "close"     -> {[c EXCEPT !.st = "close"]}
      [] e[1] = "closed"    -> {Leave(c)}
      [] e[1] = "leave"     -> {Leave(c)}
      [] e[1] = "call"      -> {[c EXCEPT !.pend = (e[2] :> e[5]) @@ @]}
      [] e[1] = "ret"       -> Ret(c, e[2], e[3], e[4])
      [] e[1] = "quiet"     -> Quiet(c)
      [] e[1] = "tasks"     -> Tasks(c, e[2])
      \* an undocumented error comes out of the iteration
      [] e[1] = "other"     -> If(~OnAny({"S01", "S02", "S03", "S04", "S06"}), Over(c))
      [] OTHER              -> {}   \* "hang", "crash"
=============================================================================
