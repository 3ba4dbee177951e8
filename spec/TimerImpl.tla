----------------------------- MODULE TimerImpl -----------------------------
(***************************************************************************)
(* The design of Timer, against TimerContract, with its own model of the   *)
(* event loop, which has timeouts: a waiting task has a timeout armed for  *)
(* the time the tick is due, and waits for a reset; the loop runs in       *)
(* iterations, at the start of which the timeouts that are due, up to Res  *)
(* early, are queued; a timeout that runs wakes its task.                  *)
(*                                                                         *)
(* Recheck (a woken task waits again if it is too early), KeepTick (it     *)
(* doesn't fire again if a tick is there) and ResetWakes are TRUE for the  *)
(* design as it is; FALSE gives back defects, two of which were found and  *)
(* repaired (see DESIGN.md).                                               *)
(***************************************************************************)
EXTENDS TimerContract, Json

CONSTANTS Every, Pol, Arg, Auto, Res, Delays, Passes, MaxNow, MaxPend, MaxActs, Kinds, Stopping,
          Recheck, KeepTick, ResetWakes, Emit

VARIABLES s, cs, acts, sched
vars == <<s, cs, acts, sched>>

(* State: st, next, drift (-1: none) of the timer; op: id -> [k, st, dl, h, uc],
   st "w"aiting or "r"unnable, dl the time its timeout is armed for, h its
   state, "armed", "queued" or "off", uc: the task was cancelled; rq the
   ready queue, left of which belong to this iteration; seen: the time code
   ran last; rdy, out.                                                     *)
Out(t, e) == [t EXCEPT !.out = Append(@, e)]
Finish(t, id, res, v) == Out([t EXCEPT !.op = Drop(@, id)], <<"ret", id, res, v>>)

ResetTimer(t, delay) ==
    LET woken == IF ResetWakes THEN {id \in DOMAIN t.op : t.op[id].st = "w"} ELSE {}
        RECURSIVE seq(_)
        seq(S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE x \in S : \A y \in S : x <= y
                                           IN <<<<"op", i>>>> \o seq(S \ {i})
    IN [t EXCEPT !.st = "run", !.next = t.now + delay + Every, !.drift = -1, !.rdy = FALSE,
                 !.op = [id \in DOMAIN @ |-> IF id \in woken THEN [@[id] EXCEPT !.st = "r"] ELSE @[id]],
                 !.rq = @ \o seq(woken)]

Got(t, id) == IF t.op[id].k = "ready" THEN Finish([t EXCEPT !.rdy = TRUE], id, "true", 0)
              ELSE Finish([t EXCEPT !.drift = -1, !.rdy = FALSE], id, "val", t.drift)
IsStopped(t, id) ==
    LET k == t.op[id].k IN
    Finish([t EXCEPT !.rdy = k = "ready" \/ @], id,
           CASE k = "ready" -> "false" [] k = "recv" -> "stopped" [] OTHER -> "end", 0)

Fire(t, id) ==
    IF t.st = "stop" THEN IsStopped(t, id)
    ELSE LET next == Next1(Pol, Arg, Every, t.next, t.now)
             u == IF Pol = "custom" THEN Out(t, <<"asked", Every, t.next, t.now, next>>) ELSE t
         IN Got([u EXCEPT !.drift = t.now - t.next, !.next = next], id)
Sleep(t, id) == [t EXCEPT !.op[id].st = "w", !.op[id].dl = t.next, !.op[id].h = "armed"]
Loop(t, id) == IF t.next > t.now THEN Sleep(t, id) ELSE Fire(t, id)

Enter(t, id) ==
    IF t.drift >= 0 THEN Got(t, id)
    ELSE LET u == IF t.st = "new" THEN ResetTimer(t, 0) ELSE t
         IN IF u.st = "stop" THEN IsStopped(u, id) ELSE Loop(u, id)
\* The task runs again: its timeout is gone
Resume(t, id) ==
    LET isH(e) == e = <<"h", id>>
        u == [t EXCEPT !.op[id].h = "off",
                       !.left = @ - Cardinality({i \in 1..t.left : isH(t.rq[i])}),
                       !.rq = SelectSeq(@, LAMBDA e : ~isH(e))]
    IN IF u.op[id].uc THEN Finish(u, id, "cancelled", 0)
       ELSE IF KeepTick /\ u.drift >= 0 THEN Got(u, id)
       ELSE IF Recheck THEN Loop(u, id) ELSE Fire(u, id)

(* -------------------------------- the loop ----------------------------- *)
Due(t) == {id \in DOMAIN t.op : t.op[id].h = "armed" /\ t.op[id].dl <= t.now + Res}
RECURSIVE InOrder(_, _)
InOrder(t, S) == IF S = {} THEN <<>>
    ELSE LET i == CHOOSE x \in S : \A y \in S :
                     t.op[x].dl < t.op[y].dl \/ (t.op[x].dl = t.op[y].dl /\ x <= y)
         IN <<<<"h", i>>>> \o InOrder(t, S \ {i})
Begin(t) ==
    IF t.left > 0 THEN t
    ELSE LET q == t.rq \o InOrder(t, Due(t))
         IN [t EXCEPT !.rq = q, !.left = Len(q),
                      !.op = [id \in DOMAIN @ |-> IF id \in Due(t) THEN [@[id] EXCEPT !.h = "queued"] ELSE @[id]]]
RunHead(t) ==
    LET b == Begin(t)
        e == Head(b.rq)
        u == [b EXCEPT !.rq = Tail(@), !.left = @ - 1]
    IN IF e[1] = "op" THEN Resume(u, e[2])
       ELSE LET v == [u EXCEPT !.op[e[2]].h = "off"] IN
            IF v.op[e[2]].st = "w" THEN [v EXCEPT !.op[e[2]].st = "r", !.rq = Append(@, <<"op", e[2]>>)]
            ELSE v

FreeId(t) == CHOOSE i \in 1..(Cardinality(DOMAIN t.op) + 1) :
                i \notin DOMAIN t.op /\ \A j \in 1..(i - 1) : j \in DOMAIN t.op
StartOp(t, k) ==
    LET id == FreeId(t)
        u == [t EXCEPT !.op = (id :> [k |-> k, st |-> "r", dl |-> 0, h |-> "off", uc |-> FALSE]) @@ @]
    IN Enter(Out(u, <<"call", id, k, 0, 0>>), id)
CancelOp(t, id) ==
    IF t.op[id].st = "w" THEN [t EXCEPT !.op[id].uc = TRUE, !.op[id].st = "r", !.rq = Append(@, <<"op", id>>)]
    ELSE [t EXCEPT !.op[id].uc = TRUE]
ConsumeOp(t) ==
    LET u == [t EXCEPT !.rdy = FALSE] IN
    IF t.drift >= 0 THEN Out([u EXCEPT !.drift = -1], <<"consume", "val", t.drift>>)
    ELSE Out(u, <<"consume", IF t.st = "stop" THEN "stopped" ELSE "other", 0>>)

(* ------------------------- the contract, in step ----------------------- *)
RECURSIVE Observe(_, _)
Observe(S, evs) == IF evs = <<>> THEN S
                   ELSE Observe(UNION {Step(c, Head(evs)) : c \in S}, Tail(evs))

\* Code is about to run
Run0(t) == IF t.seen = t.now THEN t ELSE [t EXCEPT !.seen = t.now, !.out = <<<<"now", t.now>>>>]
Do(t, a) == /\ s' = [t EXCEPT !.out = <<>>]
            /\ cs' = Observe(cs, t.out)
            /\ sched' = Append(sched, a)
            /\ acts' = acts + (IF a[1] = "step" THEN 0 ELSE 1)

Init == /\ s = [now |-> 0, seen |-> 0, st |-> IF Auto THEN "run" ELSE "new",
                next |-> Every, drift |-> -1, rdy |-> FALSE,
                op |-> <<>>, rq |-> <<>>, left |-> 0, out |-> <<>>]
        /\ cs = {C0(Every, Pol, Arg, Auto, 0, 0, 0)}
        /\ acts = 0 /\ sched = <<>>

More == acts < MaxActs
APass == /\ More /\ \E d \in Passes : s.now + d <= MaxNow
                                     /\ Do([s EXCEPT !.now = @ + d], <<"pass", d>>)
AStart == /\ More /\ Cardinality(DOMAIN s.op) < MaxPend
          /\ \E k \in Kinds : Do(StartOp(Run0(s), k), <<"start", k, 0, 0>>)
AReset == More /\ \E d \in Delays : Do(Out(ResetTimer(Run0(s), d), <<"reset", d>>), <<"reset", d>>)
AStop == /\ More /\ s.st # "stop" /\ Stopping
         /\ Do(Out([Run0(s) EXCEPT !.st = "stop", !.next = s.now], <<"stop">>), <<"stop">>)
ACancel == More /\ \E id \in DOMAIN s.op : ~s.op[id].uc /\ Do(CancelOp(s, id), <<"cancel", id>>)
AConsume == More /\ s.rdy /\ Do(ConsumeOp(Run0(s)), <<"consume">>)
ARun == (s.rq # <<>> \/ Due(s) # {}) /\ Do(RunHead(Run0(s)), <<"step">>)

Next == APass \/ AStart \/ AReset \/ AStop \/ ACancel \/ AConsume \/ ARun
Spec == Init /\ [][Next]_vars

View == <<s, cs, acts>>
Schedules == Emit => PrintT("S" \o ToJson(sched'))

(* ------------------------------ properties ----------------------------- *)
AtRest == s.rq = <<>> /\ s.seen = s.now /\ \A id \in DOMAIN s.op : s.op[id].h = "armed" => s.op[id].dl > s.now
Armed == {s.op[id].dl : id \in {i \in DOMAIN s.op : s.op[i].h = "armed"}}
Wakes == IF Armed = {} THEN -1 ELSE CHOOSE x \in Armed : \A y \in Armed : x <= y
Implements == cs # {}
Rests == AtRest => \E c \in cs : Quiet(c, Wakes) # {}
NoneLate == AtRest => \A id \in DOMAIN s.op :
    s.st = "run" => (s.op[id].h = "armed" /\ s.op[id].dl <= s.next /\ s.drift = -1)
NotNegative == s.drift >= -1
\* the resync policy stays on the grid of the last start, and never bursts
OnGrid == (Pol = "resync" /\ Delays = {} /\ Auto /\ s.st = "run") => s.next % Every = 0
NoBurst == [][(Pol = "resync" /\ s.drift = -1 /\ s'.drift >= 0) => s'.next > s'.now]_vars
=============================================================================
