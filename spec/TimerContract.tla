--------------------------- MODULE TimerContract ---------------------------
(***************************************************************************)
(* What a timer promises.  Times are integers, in microseconds.            *)
(*                                                                         *)
(* Step(c, e) is {} if the contract forbids event e in state c, else the   *)
(* singleton of the state after it.  Guards belong to T01..T06; that of    *)
(* the schedule, which tells when each tick is due, is common to T01..T05, *)
(* which are decided on histories with different policies and actions.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANT Check
On(p) == p \in Check
OnAny(P) == Check \cap P # {}
Core == {"T01", "T02", "T03", "T04", "T05"}

(* State: int    the interval
          pol    the policy: "all", "resync", "drift" or "custom"
          slack  how much the clock may go on while the timer goes to sleep
          arg    its argument: the tolerance of "drift"; "custom" schedules
                 the next tick arg after the firing
          st     "new": not started yet, "run", "stop"
          now    the time
          due    when the next tick is scheduled for, if st = "run"
          win    times at which it may have fired, as code ran then and
                 someone was waiting
          tick   the same, of a tick that is known to have fired and did not
                 come out yet.  {}: there is none
          until  those who waited when it was stopped know it by then
          asked  the custom policy was told that it fired then, and answered
                 this next time; {}
          pend   pending operations, id -> [k, early]: early if it was
                 stopped since                                            *)
C0(int, pol, arg, start, delay, now, slack) ==
    [int |-> int, slack |-> slack, pol |-> pol, arg |-> arg, st |-> IF start THEN "run" ELSE "new",
     now |-> now, due |-> now + delay + int, win |-> {}, tick |-> {}, until |-> 0,
     asked |-> {}, pend |-> <<>>]

If(cond, c) == IF cond THEN {c} ELSE {}
TheOne(S) == CHOOSE x \in S : TRUE
Drop(f, id) == [x \in DOMAIN f \ {id} |-> f[x]]

Next1(pol, arg, int, due, fired) ==
    CASE pol = "all"    -> due + int
      [] pol = "resync" -> fired + (int - ((fired - due) % int))
      [] pol = "drift"  -> IF fired - due > arg THEN fired + int ELSE due + int
      [] pol = "custom" -> fired + arg

\* It may fire now
Look(c) == IF c.st = "run" /\ c.pend # <<>> /\ c.now >= c.due
           THEN [c EXCEPT !.win = @ \cup {c.now}] ELSE c
Restart(c, delay) ==
    [c EXCEPT !.st = "run", !.due = c.now + delay + c.int, !.win = {}, !.tick = {}, !.asked = {},
              !.pend = [id \in DOMAIN @ |-> [@[id] EXCEPT !.early = FALSE]]]

Call(c, id, k) ==
    LET d == IF c.st = "new" THEN Restart(c, 0) ELSE c
    IN {Look([d EXCEPT !.pend = (id :> [k |-> k, early |-> FALSE]) @@ @])}

Stop(c) == [c EXCEPT !.st = "stop",
                     !.until = IF c.st = "run" THEN c.due ELSE @,
                     !.pend = [id \in DOMAIN @ |-> [@[id] EXCEPT !.early = TRUE]]]

\* TLC's integers have 32 bits; no time goes beyond this
Limit == 1900000000

\* A tick that was drift late comes out
Comes(c, drift) ==
    LET fired == c.due + drift
        from == IF c.tick # {} THEN c.tick ELSE c.win
        next == IF c.asked = {} THEN Next1(c.pol, c.arg, c.int, c.due, fired) ELSE TheOne(c.asked)[2]
        d == Look([c EXCEPT !.tick = {}, !.win = {}, !.due = next, !.asked = {}])
    IN IF drift > Limit - c.due \/ drift < -Limit THEN {}
       ELSE IF c.st # "run" /\ ~On("T05") THEN {[c EXCEPT !.tick = {}, !.win = {}]}
       ELSE If(/\ OnAny(Core) => fired \in from
               /\ On("T06") /\ c.pol = "custom" => c.asked # {} /\ TheOne(c.asked)[1] = fired,
               d)

\* It is reported as stopped
Stops(c) == If(/\ OnAny(Core) => c.st = "stop"
               /\ On("T05") => c.tick = {},
               [c EXCEPT !.win = {}])

Ret(c, id, res, v) ==
    IF id \notin DOMAIN c.pend THEN {} ELSE
    LET p == c.pend[id]
        d == [c EXCEPT !.pend = Drop(@, id)]
    IN CASE res = "val" /\ p.k \in {"recv", "anext"} -> Comes(d, v)
         [] res = "true" /\ p.k = "ready" ->
                IF d.tick # {} THEN {d}
                ELSE IF d.win # {} THEN {[d EXCEPT !.tick = d.win]}
                ELSE If(~OnAny(Core) \/ (d.st = "stop" /\ ~On("T05")), d)
         [] res = "stopped" /\ p.k = "recv" -> Stops(d)
         [] res = "end" /\ p.k = "anext"    -> Stops(d)
         [] res = "false" /\ p.k = "ready"  -> Stops(d)
         [] res = "cancelled" -> {d}
         [] OTHER -> If(~OnAny(Core \cup {"T06"}), d)

Consume(c, res, v) ==
    CASE res = "val"     -> Comes(c, v)
      [] res = "stopped" -> Stops(c)
      [] OTHER           -> If(~OnAny(Core \cup {"T06"}), c)

\* The event loop is at rest, and will be until wake, -1: for ever
Quiet(c, wake) ==
    If(\A id \in DOMAIN c.pend :
          IF c.st = "run"
          THEN OnAny(Core) => (c.tick = {} /\ c.now < c.due + c.slack /\ wake # -1 /\ wake <= c.due + c.slack)
          ELSE On("T05") => (/\ c.tick = {} /\ c.pend[id].early
                             /\ c.now < c.until + c.slack /\ wake # -1 /\ wake <= c.until + c.slack),
       c)

\* The custom policy is asked for the tick after the one due at sched, fired
\* at now, and answers next
Asked(c, int, sched, now, next) ==
    If(On("T06") => /\ c.pol = "custom" /\ c.asked = {}
                    /\ int = c.int /\ sched = c.due
                    /\ now \in c.win \cup c.tick,
       [c EXCEPT !.asked = {<<now, next>>}])

\* A policy by itself
Calc(pol, arg, int, sched, now, next) ==
    OnAny(CASE pol = "all" -> {"T02"} [] pol = "resync" -> {"T03"} [] OTHER -> {"T04"})
        => next = Next1(pol, arg, int, sched, now)

Step(c, e) ==
    CASE e[1] = "now"     -> {Look([c EXCEPT !.now = e[2]])}
      [] e[1] = "call"    -> Call(c, e[2], e[3])
      [] e[1] = "ret"     -> Ret(c, e[2], e[3], e[4])
      [] e[1] = "consume" -> Consume(c, e[2], e[3])
      [] e[1] = "reset"   -> {Restart(c, e[2])}
      [] e[1] = "stop"    -> {Stop(c)}
      [] e[1] = "quiet"   -> Quiet(c, e[2])
      [] e[1] = "running" -> If(On("T05") => (e[2] <=> c.st = "run"), c)
      [] e[1] = "refused" -> If(On("T05") => e[2], c)
      [] e[1] = "asked"   -> Asked(c, e[2], e[3], e[4], e[5])
      [] e[1] = "calc"    -> If(Calc(e[2], e[3], e[4], e[5], e[6], e[7]), c)
      [] OTHER            -> {}   \* "hang", "crash"
=============================================================================
