------------------------------ MODULE MergeImpl ------------------------------
(***************************************************************************)
(* The design of Merger, checked exhaustively against ReceiverContract and *)
(* printing the schedules to replay.                                       *)
(*                                                                         *)
(* One background task per source waits for its next message.  A task that *)
(* waits for the merged receiver waits for the first of these to be done   *)
(* (asyncio.wait), moves what is done to a queue of results and starts the *)
(* task of that source again.  stop() cancels the background tasks.        *)
(*                                                                         *)
(* The ready queue holds what asyncio's holds: <<"src", i>> the task of    *)
(* source i runs, <<"cb", id>> a done-callback of asyncio.wait for         *)
(* operation id, <<"gcb", id>> one of asyncio.gather, <<"run", id>> the    *)
(* operation runs, <<"nop", 0>> a callback that came too late.             *)
(*                                                                         *)
(* Message 2 is an error.  Recheck, TakePending, Rearm and OnlyPending     *)
(* are TRUE for the design as it is; FALSE gives back defects that were    *)
(* found and repaired (see DESIGN.md), and TLC reports them.               *)
(***************************************************************************)
EXTENDS ReceiverContract, Json

CONSTANTS NS, MaxMsgs, MaxPend, MaxActs, Kinds, Stops_, Drops, Cancels,
          Recheck, TakePending, Rearm, OnlyPending, Emit

VARIABLES s, cs, nmsg, acts, sched
vars == <<s, cs, nmsg, acts, sched>>

Srcs == 1..NS
Log(t, e) == [t EXCEPT !.out = Append(@, e)]
Push(t, h) == [t EXCEPT !.rq = Append(@, h)]
RECURSIVE PushAll(_, _)
PushAll(t, hs) == IF hs = <<>> THEN t ELSE PushAll(Push(t, Head(hs)), Tail(hs))

Done(t, i) == t.task[i].st \in {"val", "err", "stop", "cx"}
Pending(t) == {i \in Srcs : t.task[i].pend}

(* ------------------------- the background tasks ------------------------ *)
\* The task of source i is done: its callbacks are scheduled
Completes(t, i, st, v) ==
    PushAll([t EXCEPT !.task[i].st = st, !.task[i].v = v, !.task[i].mc = FALSE, !.task[i].cbs = <<>>],
            t.task[i].cbs)

SrcRun(t, i) ==
    LET b == t.buf[i] IN
    IF t.task[i].mc THEN Completes(t, i, "cx", 0)
    ELSE IF b # <<>> THEN Completes([t EXCEPT !.buf[i] = Tail(@)], i, IF Head(b) = 2 THEN "err" ELSE "val", Head(b))
    ELSE IF t.stp[i] THEN Completes(t, i, "stop", 0)
    ELSE [t EXCEPT !.task[i].st = "wait"]

WakeSrc(t, i) == IF t.task[i].st = "wait" THEN Push([t EXCEPT !.task[i].st = "woken"], <<"src", i>>) ELSE t
CancelSrc(t, i) ==
    IF Done(t, i) THEN t
    ELSE LET u == [t EXCEPT !.task[i].mc = TRUE] IN WakeSrc(u, i)
RECURSIVE CancelAll(_, _)
CancelAll(t, S) == IF S = {} THEN t
                   ELSE LET i == CHOOSE x \in S : \A y \in S : x <= y IN CancelAll(CancelSrc(t, i), S \ {i})
NewTask(t, i) == Push([t EXCEPT !.task[i] = [st |-> "new", v |-> 0, mc |-> FALSE, cbs |-> <<>>, pend |-> TRUE]],
                      <<"src", i>>)

(* ------------------------------ operations ----------------------------- *)
Finish(t, id, res, v) ==
    Log([t EXCEPT !.op = [x \in DOMAIN @ \ {id} |-> @[x]]], <<"ret", id, res, v>>)

\* asyncio.wait() begins, and ends
Register(t, id, S) ==
    LET done == {i \in S : Done(t, i)}
        u == [t EXCEPT !.op[id].f = "w", !.op[id].mc = FALSE,
                       !.task = [i \in DOMAIN @ |->
                                    IF i \in S \ done THEN [@[i] EXCEPT !.cbs = Append(@, <<"cb", id>>)] ELSE @[i]]]
    IN PushAll(u, [n \in 1..Cardinality(done) |-> <<"cb", id>>])
Unregister(t, id) ==
    [t EXCEPT !.task = [i \in DOMAIN @ |-> [@[i] EXCEPT !.cbs = SelectSeq(@, LAMBDA h : h # <<"cb", id>>)]],
              !.rq = [n \in 1..Len(@) |-> IF @[n] = <<"cb", id>> THEN <<"nop", 0>> ELSE @[n]]]

\* consume(): the new state, the outcome and the message
Take(t) ==
    IF t.res # <<>>
    THEN <<[t EXCEPT !.res = Tail(@), !.rdy = FALSE], IF Head(t.res) = 2 THEN "raised" ELSE "val", Head(t.res)>>
    ELSE IF Pending(t) = {} THEN <<t, "stopped", 0>> ELSE <<t, "other", 0>>
ReadyIs(t, id, active) ==
    IF t.op[id].k = "ready" THEN Finish([t EXCEPT !.rdy = TRUE], id, IF active THEN "true" ELSE "false", 0)
    ELSE LET r == Take(t) IN
         Finish(r[1], id, IF r[2] = "stopped" /\ t.op[id].k = "anext" THEN "end" ELSE r[2], r[3])

\* The top of the loop in ready()
Run(t, id) ==
    IF t.res # <<>> THEN ReadyIs(t, id, TRUE)
    ELSE IF Pending(t) = {} THEN ReadyIs(t, id, FALSE)
    ELSE Register([t EXCEPT !.op[id].on = Pending(t)], id, Pending(t))

\* Move what is done to the results; the queue has room for NS
Store(t, v) == [t EXCEPT !.res = Append(IF Len(@) = NS THEN Tail(@) ELSE @, v)]
RECURSIVE Handle(_, _)
Handle(t, S) ==
    IF S = {} THEN t
    ELSE LET i == CHOOSE x \in S : \A y \in S : x <= y
             k == t.task[i]
             u == [t EXCEPT !.task[i].pend = FALSE]
         IN Handle(IF k.st = "stop" THEN u
                   ELSE IF k.st = "err" /\ ~Rearm THEN Store(u, k.v)
                   ELSE NewTask(Store(u, k.v), i), S \ {i})

\* asyncio.wait() ended in operation id
Awaited(t, id) ==
    LET S == {i \in (IF OnlyPending THEN Pending(t) ELSE t.op[id].on) : Done(t, i)} IN
    IF Recheck /\ t.res # <<>> THEN ReadyIs(t, id, TRUE)
    ELSE IF \E i \in S : t.task[i].st = "cx" THEN Finish(t, id, "other", 0)
    ELSE Run(Handle(t, S), id)

FreeId(t) == CHOOSE i \in 1..(Cardinality(DOMAIN t.op) + 1) :
                i \notin DOMAIN t.op /\ \A j \in 1..(i - 1) : j \in DOMAIN t.op
NewOp(t, id, k) == Log([t EXCEPT !.op = (id :> [k |-> k, f |-> "", mc |-> FALSE, on |-> {}, left |-> 0]) @@ @],
                       <<"call", id, k, 0, 0>>)

\* stop(): cancel the background tasks and wait for them
StopRun(t, id) ==
    LET S == Pending(t)
        u == IF TakePending THEN [t EXCEPT !.task = [i \in DOMAIN @ |-> [@[i] EXCEPT !.pend = FALSE]]] ELSE t
        w == CancelAll(u, S)
        done == {i \in S : Done(w, i)}
        x == [w EXCEPT !.op[id].f = "w", !.op[id].left = Cardinality(S),
                       !.task = [i \in DOMAIN @ |->
                                   IF i \in S \ done THEN [@[i] EXCEPT !.cbs = Append(@, <<"gcb", id>>)] ELSE @[i]]]
    IN IF S = {} THEN Finish(t, id, "ok", 0)
       ELSE PushAll(x, [n \in 1..Cardinality(done) |-> <<"gcb", id>>])

StartOp(t, k) ==
    LET id == FreeId(t)  u == NewOp(t, id, k) IN IF k = "stop" THEN StopRun(u, id) ELSE Run(u, id)
CancelOp(t, id) ==
    IF t.op[id].f = "w" THEN Push([t EXCEPT !.op[id].f = "c"], <<"run", id>>) ELSE [t EXCEPT !.op[id].mc = TRUE]

OpRun(t, id) ==
    LET u == Unregister(t, id) IN
    IF t.op[id].f = "c" \/ t.op[id].mc THEN Finish(u, id, "cancelled", 0)
    ELSE IF t.op[id].k = "stop"
    THEN Finish([u EXCEPT !.task = [i \in DOMAIN @ |-> [@[i] EXCEPT !.pend = FALSE]]], id, "ok", 0)
    ELSE Awaited(u, id)

RunHead(t0) ==
    LET h == Head(t0.rq)  t == [t0 EXCEPT !.rq = Tail(@)]  id == h[2] IN
    CASE h[1] = "src" -> SrcRun(t, id)
      [] h[1] = "run" -> OpRun(t, id)
      [] h[1] = "cb"  -> IF t.op[id].f = "w" THEN Push([t EXCEPT !.op[id].f = "d"], <<"run", id>>) ELSE t
      [] h[1] = "gcb" -> IF t.op[id].left > 1 THEN [t EXCEPT !.op[id].left = @ - 1]
                         ELSE Push([t EXCEPT !.op[id].f = "d"], <<"run", id>>)
      [] OTHER        -> t

OfferOp(t, i, v) == WakeSrc([t EXCEPT !.buf[i] = Append(@, v), !.out = <<<<"offer", i, <<v>>, v = 2>>>>], i)
StopSrc(t, i) == WakeSrc([t EXCEPT !.stp[i] = TRUE, !.out = <<<<"stop", i>>>>], i)
ConsumeOp(t) == LET r == Take([t EXCEPT !.rdy = FALSE]) IN Log(r[1], <<"consume", r[2], r[3]>>)
DropOp(t) == CancelAll([t EXCEPT !.gone = TRUE, !.out = <<<<"gone">>>>], Srcs)

(* -------------------- the contract's state, in step -------------------- *)
RECURSIVE Observe(_, _)
Observe(S, evs) == IF evs = <<>> THEN S
                   ELSE Observe(UNION {Step(c, Head(evs)) : c \in S}, Tail(evs))

Do(t, a) == /\ s' = [t EXCEPT !.out = <<>>]
            /\ cs' = Observe(cs, t.out)
            /\ sched' = Append(sched, a)
            /\ acts' = acts + (IF a[1] = "step" THEN 0 ELSE 1)

Init == /\ s = [buf |-> [i \in Srcs |-> <<>>], stp |-> [i \in Srcs |-> FALSE],
                task |-> [i \in Srcs |-> [st |-> "new", v |-> 0, mc |-> FALSE, cbs |-> <<>>, pend |-> TRUE]],
                res |-> <<>>, rdy |-> FALSE, gone |-> FALSE, op |-> <<>>,
                rq |-> [i \in Srcs |-> <<"src", i>>], out |-> <<>>]
        /\ cs = {C0(NS, FALSE, 0)}
        /\ nmsg = 0 /\ acts = 0 /\ sched = <<>>

Room == acts < MaxActs /\ ~s.gone /\ Cardinality(DOMAIN s.op) < MaxPend
AOffer == /\ acts < MaxActs /\ nmsg < MaxMsgs /\ nmsg' = nmsg + 1
          /\ \E i \in Srcs : ~s.stp[i] /\ Do(OfferOp(s, i, nmsg + 1), <<"offer", i>>)
AStart == Room /\ UNCHANGED nmsg /\ \E k \in Kinds : Do(StartOp(s, k), <<"start", k, 0, 0>>)
ACut == /\ Room /\ Stops_ /\ UNCHANGED nmsg /\ \A c \in cs : ~c.cut
        /\ Do(StartOp(s, "stop"), <<"cut">>)
AStop == /\ acts < MaxActs /\ UNCHANGED nmsg
         /\ \E i \in Srcs : ~s.stp[i] /\ Do(StopSrc(s, i), <<"stop", i>>)
ACancel == /\ Cancels /\ acts < MaxActs /\ UNCHANGED nmsg
           /\ \E id \in DOMAIN s.op : /\ ~s.op[id].mc /\ s.op[id].f # "c" /\ s.op[id].k # "stop"
                                      /\ Do(CancelOp(s, id), <<"cancel", id>>)
AConsume == acts < MaxActs /\ s.rdy /\ ~s.gone /\ UNCHANGED nmsg /\ Do(ConsumeOp(s), <<"consume">>)
ADrop == /\ Drops /\ acts < MaxActs /\ ~s.gone /\ s.op = <<>> /\ UNCHANGED nmsg /\ Do(DropOp(s), <<"drop">>)
ARun == s.rq # <<>> /\ UNCHANGED nmsg /\ Do(RunHead(s), <<"step">>)

Next == AOffer \/ AStart \/ ACut \/ AStop \/ ACancel \/ AConsume \/ ADrop \/ ARun
Spec == Init /\ [][Next]_vars

View == <<s, cs, nmsg, acts>>
Schedules == Emit => PrintT("S" \o ToJson(sched'))

(* ------------------------------ properties ----------------------------- *)
Alive == {i \in Srcs : ~Done(s, i)}
Implements == cs # {}
Rests == s.rq = <<>> => \E c \in cs : Quiet(c, TRUE) # {} /\ Tasks(c, Cardinality(Alive)) # {}

\* The same, stated directly on the design.
NoneBlocked == s.rq = <<>> =>
    \A id \in DOMAIN s.op :
        s.op[id].k # "stop" /\ s.res = <<>> /\ Pending(s) # {} /\ \A i \in Srcs : s.buf[i] = <<>>
NoTasksLeft == (s.rq = <<>> /\ (s.gone \/ \A c \in cs : c.cut)) => Alive = {}
RoomForAll == Len(s.res) <= NS
=============================================================================
