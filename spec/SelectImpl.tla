----------------------------- MODULE SelectImpl -----------------------------
(***************************************************************************)
(* The design of select(), against SelectContract, printing the schedules  *)
(* to replay.                                                              *)
(*                                                                         *)
(* Each iteration g starts one task per receiver, which waits in ready(),  *)
(* waits for the first of these to be done (asyncio.wait), consumes from   *)
(* and yields each that is done, in any order, and starts its task again.  *)
(* When it ends in any way it cancels its tasks and waits for them.  An    *)
(* iteration that is dropped is closed by a task of the event loop, while  *)
(* a new one may be running already.                                       *)
(*                                                                         *)
(* The ready queue holds <<"t", g, i>> the task of receiver i runs,        *)
(* <<"cb", g, 0>> a done-callback of asyncio.wait, <<"gen", g, 0>> the     *)
(* task in the iterator runs, <<"fin", g, 0>> the closing task is created. *)
(*                                                                         *)
(* Message 2 raises.  The switches are TRUE for the design as it is.       *)
(***************************************************************************)
EXTENDS SelectContract, Json

CONSTANTS NR, NG, MaxMsgs, MaxActs, Fails, Stops_, Leaves, Cancels, Unhandles,
          Cleanup, Rearm, Emit

VARIABLES s, cs, nmsg, acts, sched
vars == <<s, cs, nmsg, acts, sched>>

Rs == 1..NR
Gs == 1..NG
Log(t, e) == [t EXCEPT !.out = Append(@, e)]
Push(t, h) == [t EXCEPT !.rq = Append(@, h)]
RECURSIVE PushN(_, _, _)
PushN(t, h, n) == IF n = 0 THEN t ELSE PushN(Push(t, h), h, n - 1)

IsDone(k) == k.st \in {"true", "false", "err", "cx"}
DoneIn(t, g, S) == {i \in S : IsDone(t.task[g][i])}

(* --------------------------- tasks in ready() -------------------------- *)
Completes(t, g, i, st) ==
    LET u == [t EXCEPT !.task[g][i].st = st, !.task[g][i].mc = FALSE, !.task[g][i].cb = FALSE]
    IN IF t.task[g][i].cb THEN Push(u, <<"cb", g, 0>>) ELSE u
TaskRun(t, g, i) ==
    IF t.task[g][i].mc THEN Completes(t, g, i, "cx")
    ELSE IF t.fail[i] THEN Completes(t, g, i, "err")
    ELSE IF t.buf[i] # <<>> THEN Completes(t, g, i, "true")
    ELSE IF t.stp[i] THEN Completes(t, g, i, "false")
    ELSE [t EXCEPT !.task[g][i].st = "wait"]
WakeTask(t, g, i) ==
    IF t.task[g][i].st = "wait" THEN Push([t EXCEPT !.task[g][i].st = "woken"], <<"t", g, i>>) ELSE t
RECURSIVE WakeAll(_, _, _)
WakeAll(t, i, g) == IF g > NG THEN t ELSE WakeAll(WakeTask(t, g, i), i, g + 1)
NewTask(t, g, i) == Push([t EXCEPT !.task[g][i] = [st |-> "new", mc |-> FALSE, cb |-> FALSE],
                                   !.gen[g].pend = @ \cup {i}], <<"t", g, i>>)
RECURSIVE NewTasks(_, _, _)
NewTasks(t, g, i) == IF i > NR THEN t ELSE NewTasks(NewTask(t, g, i), g, i + 1)
RECURSIVE CancelTasks(_, _, _)
CancelTasks(t, g, S) ==
    IF S = {} THEN t
    ELSE LET i == CHOOSE x \in S : \A y \in S : x <= y
             u == IF IsDone(t.task[g][i]) THEN t ELSE WakeTask([t EXCEPT !.task[g][i].mc = TRUE], g, i)
         IN CancelTasks(u, g, S \ {i})

(* ------------------------------ iterations ----------------------------- *)
\* asyncio.wait() for the first, or all, of the pending ones
Await(t, g, st) ==
    LET S == t.gen[g].pend
        D == DoneIn(t, g, S)
        u == [t EXCEPT !.gen[g].st = st, !.gen[g].f = "w",
                       !.gen[g].left = IF st = "wait" THEN 1 ELSE Cardinality(S),
                       !.task[g] = [i \in DOMAIN @ |-> IF i \in S \ D THEN [@[i] EXCEPT !.cb = TRUE] ELSE @[i]]]
    IN PushN(u, <<"cb", g, 0>>, Cardinality(D))
Unawait(t, g) == [t EXCEPT !.gen[g].f = "", !.gen[g].mc = FALSE,
                           !.task[g] = [i \in DOMAIN @ |-> [@[i] EXCEPT !.cb = FALSE]]]

\* It is finished; only the program that is still there notices
Finish(t, g, e) ==
    LET u == [t EXCEPT !.gen[g].st = "over", !.gen[g].pend = {}, !.gen[g].batch = {}]
    IN IF t.gen[g].gone THEN u ELSE Log(u, e)
Ends(t, g, e) ==
    IF t.gen[g].pend = {} \/ ~Cleanup THEN Finish(t, g, e)
    ELSE Await([CancelTasks(t, g, t.gen[g].pend) EXCEPT !.gen[g].exit = e], g, "clean")
\* All the tasks of an ending iteration are done
Cleaned(t, g) ==
    Finish(t, g, IF \E i \in t.gen[g].pend : t.task[g][i].st = "err" THEN <<"group">> ELSE t.gen[g].exit)

\* What follows the selection of one of the batch, or the wait: a set of states
Selects(t, g) ==
    LET G == t.gen[g] IN
    IF G.batch = {}
    THEN IF G.pend = {} THEN {Finish(t, g, <<"end">>)} ELSE {Await(t, g, "wait")}
    ELSE {LET u == [t EXCEPT !.gen[g].batch = @ \ {i}] IN
          IF t.task[g][i].st = "err" THEN Ends(u, g, <<"error", i>>)
          ELSE LET b == t.buf[i]
                   sel == IF b = <<>> THEN <<i, IF t.stp[i] THEN "stopped" ELSE "odd", 0>>
                          ELSE <<i, IF Head(b) = 2 THEN "raised" ELSE "val", Head(b)>>
                   w == [u EXCEPT !.buf[i] = IF b = <<>> THEN @ ELSE Tail(b),
                                  !.gen[g].st = "body", !.gen[g].cur = sel, !.gen[g].hdl = FALSE]
               IN Log(w, <<"got", sel[1], sel[2], sel[3]>>)
          : i \in G.batch}
Resumes(t, g) ==
    LET G == t.gen[g] IN
    IF G.st = "new" THEN Selects(NewTasks(t, g, 1), g)
    ELSE IF ~G.hdl THEN {Ends(t, g, <<"unhandled", G.cur>>)}
    ELSE IF t.task[g][G.cur[1]].st = "true" /\ Rearm THEN Selects(NewTask(t, g, G.cur[1]), g)
    ELSE Selects(t, g)

GenRun(t, g) ==
    LET G == t.gen[g]  u == Unawait(t, g) IN
    IF G.st = "body" \/ G.st = "new" THEN {Ends(t, g, <<"closed">>)}   \* the closing task
    ELSE IF G.f = "c" \/ G.mc
    THEN IF G.st = "wait" THEN {Ends(u, g, <<"cancelled">>)} ELSE {Finish(u, g, <<"cancelled">>)}
    ELSE IF G.st = "clean" THEN {Cleaned(u, g)}
    ELSE LET D == DoneIn(u, g, G.pend)
         IN Selects([u EXCEPT !.gen[g].batch = D, !.gen[g].pend = @ \ D], g)

RunHead(t0) ==
    LET h == Head(t0.rq)  t == [t0 EXCEPT !.rq = Tail(@)]  g == h[2] IN
    CASE h[1] = "t"   -> {TaskRun(t, g, h[3])}
      [] h[1] = "gen" -> GenRun(t, g)
      [] h[1] = "fin" -> {Push(t, <<"gen", g, 0>>)}
      [] h[1] = "cb"  -> {IF t.gen[g].f # "w" THEN t
                          ELSE IF t.gen[g].left > 1 THEN [t EXCEPT !.gen[g].left = @ - 1]
                          ELSE Push([t EXCEPT !.gen[g].f = "d"], <<"gen", g, 0>>)}

(* -------------------- the contract's state, in step -------------------- *)
RECURSIVE Observe(_, _)
Observe(S, evs) == IF evs = <<>> THEN S
                   ELSE Observe(UNION {Step(c, Head(evs)) : c \in S}, Tail(evs))

Do(t, a) == /\ s' = [t EXCEPT !.out = <<>>]
            /\ cs' = Observe(cs, t.out)
            /\ sched' = Append(sched, a)
            /\ acts' = acts + (IF a[1] = "step" THEN 0 ELSE 1)

NoTask == [st |-> "cx", mc |-> FALSE, cb |-> FALSE]
Gen0 == [st |-> "new", f |-> "", mc |-> FALSE, left |-> 0, pend |-> {}, batch |-> {}, cur |-> <<0, "", 0>>,
         hdl |-> TRUE, gone |-> FALSE, exit |-> <<>>]
Init == /\ s = [buf |-> [i \in Rs |-> <<>>], stp |-> [i \in Rs |-> FALSE], fail |-> [i \in Rs |-> FALSE],
                task |-> [g \in Gs |-> [i \in Rs |-> NoTask]], gen |-> [g \in Gs |-> Gen0], now |-> 0,
                rq |-> <<>>, out |-> <<>>]
        /\ cs = {C0([i \in Rs |-> FALSE])}
        /\ nmsg = 0 /\ acts = 0 /\ sched = <<>>

More == acts < MaxActs
Cur == s.gen[s.now]
Free == IF s.now = 0 THEN TRUE ELSE Cur.gone \/ Cur.st = "over"
AOffer == /\ More /\ nmsg < MaxMsgs /\ nmsg' = nmsg + 1
          /\ \E i \in Rs : /\ ~s.stp[i]
                           /\ Do(WakeAll([s EXCEPT !.buf[i] = Append(@, nmsg + 1),
                                                   !.out = <<<<"offer", i, <<nmsg + 1>>, nmsg + 1 = 2>>>>], i, 1),
                                 <<"offer", i>>)
AStop == /\ More /\ Stops_ /\ UNCHANGED nmsg
         /\ \E i \in Rs : ~s.stp[i] /\ Do(WakeAll([s EXCEPT !.stp[i] = TRUE, !.out = <<<<"stop", i, FALSE>>>>], i, 1),
                                          <<"stop", i>>)
AFail == /\ More /\ Fails /\ UNCHANGED nmsg
         /\ \E i \in Rs : ~s.fail[i] /\ Do(WakeAll([s EXCEPT !.fail[i] = TRUE, !.out = <<<<"fail", i>>>>], i, 1),
                                           <<"fail", i>>)
AOpen == /\ More /\ UNCHANGED nmsg /\ s.now < NG
         /\ Free
         /\ Do([s EXCEPT !.now = @ + 1, !.out = <<<<"open", [i \in Rs |-> i]>>>>], <<"open">>)
ANext == /\ More /\ UNCHANGED nmsg /\ s.now > 0 /\ ~Cur.gone /\ Cur.st \in {"new", "body"}
         /\ \E match \in (IF Cur.st = "new" \/ Cur.hdl THEN {TRUE} ELSE IF Unhandles THEN {TRUE, FALSE} ELSE {TRUE}) :
              LET m == match /\ ~Cur.hdl
                  t == [s EXCEPT !.gen[s.now].hdl = match,
                                 !.out = (IF m THEN <<<<"match", Cur.cur[1], TRUE>>>> ELSE <<>>) \o <<<<"next">>>>]
              IN \E u \in Resumes(t, s.now) : Do(u, IF match THEN <<"next">> ELSE <<"badnext">>)
ALeave == /\ More /\ Leaves /\ UNCHANGED nmsg /\ s.now > 0 /\ ~Cur.gone /\ Cur.st = "body"
          /\ \/ Do(Push([s EXCEPT !.gen[s.now].gone = TRUE, !.out = <<<<"leave">>>>], <<"fin", s.now, 0>>), <<"drop">>)
             \/ Do(Ends([s EXCEPT !.out = <<<<"close">>>>], s.now, <<"closed">>), <<"close">>)
ACancel == /\ More /\ Cancels /\ UNCHANGED nmsg /\ s.now > 0 /\ ~Cur.gone /\ Cur.st \in {"wait", "clean"}
           /\ ~Cur.mc /\ Cur.f # "c"
           /\ Do(IF Cur.f = "w" THEN Push([s EXCEPT !.gen[s.now].f = "c"], <<"gen", s.now, 0>>)
                 ELSE [s EXCEPT !.gen[s.now].mc = TRUE], <<"cancel">>)
ARun == s.rq # <<>> /\ UNCHANGED nmsg /\ \E t \in RunHead(s) : Do(t, <<"step">>)

Next == AOffer \/ AStop \/ AFail \/ AOpen \/ ANext \/ ALeave \/ ACancel \/ ARun
Spec == Init /\ [][Next]_vars

View == <<s, cs, nmsg, acts>>
Schedules == Emit => PrintT("S" \o ToJson(sched'))

(* ------------------------------ properties ----------------------------- *)
Alive == Cardinality({x \in Gs \X Rs : ~IsDone(s.task[x[1]][x[2]])})
Implements == cs # {}
Rests == s.rq = <<>> => \E c \in cs : Quiet(c) # {} /\ Tasks(c, Alive) # {}

\* The same, stated directly on the design.
NoneBlocked == (s.rq = <<>> /\ s.now > 0 /\ Cur.st = "wait") =>
    \A i \in Rs : s.buf[i] = <<>> /\ ((s.stp[i] \/ s.fail[i]) => i \notin Cur.pend)
NoTasksLeft == (s.rq = <<>> /\ Free) => Alive = 0
=============================================================================
