---------------------------- MODULE AnycastImpl ----------------------------
(***************************************************************************)
(* The design of Anycast, one action per uninterrupted run of a task, and  *)
(* the exhaustive check that it implements AnycastContract: cs holds the    *)
(* contract state after what was observable so far, and must               *)
(* never become empty (Implements), nor must the design come to rest where *)
(* the contract does not allow it (Rests).                                 *)
(*                                                                         *)
(* Every transition also prints the schedule that leads to it, which the   *)
(* harness replays on the real code (harness/anycast.py).                  *)
(*                                                                         *)
(* WakeAll, FailBlocked and KeepNext are TRUE for the design as it is.     *)
(* Setting one to FALSE gives back a defect that was found and repaired    *)
(* (DESIGN.md): TLC then reports a counterexample.                         *)
(***************************************************************************)
EXTENDS AnycastContract, Loop, Json

CONSTANTS Limit, NS, NR, MaxMsgs, MaxPend, MaxActs, Kinds, WakeAll, FailBlocked, KeepNext, Emit

VARIABLES s, cs, nmsg, acts, sched
vars == <<s, cs, nmsg, acts, sched>>

(* ------------------------------ the code ------------------------------- *)
WakeOne(t, cv) == IF WakeAll THEN NotifyAll(t, cv) ELSE Notify(t, cv, 1)

SendPut(t, id) == Finish(WakeOne([t EXCEPT !.buf = Append(@, t.op[id].v)], "r"), id, "ok", 0)
SendLoop(t, id) == IF Len(t.buf) = Limit THEN Wait(t, id, "s") ELSE SendPut(t, id)
SendEnter(t, id) == IF t.closed THEN Finish(t, id, "closed", 0) ELSE SendLoop(t, id)
SendResume(t, id) ==
    IF t.closed /\ FailBlocked THEN Finish(t, id, "closed", 0) ELSE SendLoop(t, id)

Got(t, id) ==
    LET p == t.op[id] IN
    IF p.k = "ready" THEN Finish([t EXCEPT !.rdy[p.o] = TRUE], id, "true", 0)
    ELSE Finish([t EXCEPT !.held[p.o] = 0, !.rdy[p.o] = FALSE], id, "val", t.held[p.o])
Stopped(t, id) ==
    LET p == t.op[id] IN
    CASE p.k = "ready" -> Finish([t EXCEPT !.rdy[p.o] = TRUE], id, "false", 0)
      [] p.k = "recv"  -> Finish(t, id, "stopped", 0)
      [] p.k = "anext" -> Finish(t, id, "end", 0)
RecvLoop(t, id) ==
    IF t.buf = <<>>
    THEN IF t.closed THEN Stopped(t, id) ELSE Wait(t, id, "r")
    ELSE Got(WakeOne([t EXCEPT !.held[t.op[id].o] = Head(t.buf), !.buf = Tail(@)], "s"), id)
RecvEnter(t, id) == IF t.held[t.op[id].o] # 0 THEN Got(t, id) ELSE RecvLoop(t, id)
RecvResume(t, id) == IF KeepNext THEN RecvEnter(t, id) ELSE RecvLoop(t, id)

CloseRun(t, id) == Finish(NotifyAll(NotifyAll([t EXCEPT !.closed = TRUE], "s"), "r"), id, "ok", 0)

StartOp(t, k, o, v) ==
    LET id == FreeId(t)  u == NewOp(t, id, k, o, v) IN
    CASE k = "send"  -> SendEnter(u, id)
      [] k = "close" -> CloseRun(u, id)
      [] OTHER       -> RecvEnter(u, id)

RunHead(t) ==
    LET id == WokenOp(t)  u == Resume(t) IN
    IF WokenByCancel(t) THEN Finish(u, id, "cancelled", 0)
    ELSE IF t.op[id].k = "send" THEN SendResume(u, id) ELSE RecvResume(u, id)

ConsumeOp(t, r) ==
    IF t.held[r] # 0
    THEN [t EXCEPT !.held[r] = 0, !.rdy[r] = FALSE, !.out = <<<<"consume", r, "val", t.held[r]>>>>]
    ELSE [t EXCEPT !.rdy[r] = FALSE,
                   !.out = <<<<"consume", r, IF t.closed THEN "stopped" ELSE "other", 0>>>>]

(* ----------------------- contract states, in step ---------------------- *)
RECURSIVE Observe(_, _)
Observe(S, evs) == IF evs = <<>> THEN S
                   ELSE Observe(UNION {Step(c, Head(evs)) : c \in S}, Tail(evs))

Do(t, a) == /\ s' = [t EXCEPT !.out = <<>>]
            /\ cs' = Observe(cs, t.out)
            /\ sched' = Append(sched, a)
            /\ acts' = acts + (IF a[1] = "step" THEN 0 ELSE 1)

Init == /\ s = [buf |-> <<>>, closed |-> FALSE, held |-> [r \in 1..NR |-> 0],
                rdy |-> [r \in 1..NR |-> FALSE], op |-> <<>>,
                cv |-> [x \in {"s", "r"} |-> <<>>], rq |-> <<>>, out |-> <<>>]
        /\ cs = {C0(Limit, NR)}
        /\ nmsg = 0 /\ acts = 0 /\ sched = <<>>

Room == acts < MaxActs /\ Cardinality(DOMAIN s.op) < MaxPend
ASend == /\ Room /\ nmsg < MaxMsgs /\ nmsg' = nmsg + 1
        /\ Do(StartOp(s, "send", (nmsg % NS) + 1, nmsg + 1), <<"start", "send", (nmsg % NS) + 1, nmsg + 1>>)
AReceive == /\ Room /\ UNCHANGED nmsg
           /\ \E k \in Kinds, r \in 1..NR : Do(StartOp(s, k, r, 0), <<"start", k, r, 0>>)
AClose == /\ Room /\ UNCHANGED nmsg /\ ~s.closed
         /\ Do(StartOp(s, "close", 0, 0), <<"start", "close", 0, 0>>)
ACancel == /\ acts < MaxActs /\ UNCHANGED nmsg
          /\ \E id \in DOMAIN s.op : /\ ~s.op[id].mc /\ s.op[id].f # "c"
                                     /\ Do(CancelOp(s, id), <<"cancel", id>>)
AConsume == /\ acts < MaxActs /\ UNCHANGED nmsg
           /\ \E r \in 1..NR : s.rdy[r] /\ Do(ConsumeOp(s, r), <<"consume", r>>)
ARun == s.rq # <<>> /\ UNCHANGED nmsg /\ Do(RunHead(s), <<"step">>)

Next == ASend \/ AReceive \/ AClose \/ ACancel \/ AConsume \/ ARun
Spec == Init /\ [][Next]_vars

View == <<s, cs, nmsg, acts>>
Schedules == Emit => PrintT("S" \o ToJson(sched'))

(* ------------------------------ properties ----------------------------- *)
Implements == cs # {}
Rests == s.rq = <<>> => \E c \in cs : Quiet(c) # {}

\* The same, stated directly on the design.
InBuf == {s.buf[i] : i \in 1..Len(s.buf)}
HeldSet == {s.held[r] : r \in 1..NR} \ {0}
Bounded == Len(s.buf) <= Limit
Ordered == \A i, j \in 1..Len(s.buf) : i # j => s.buf[i] # s.buf[j]
Once == /\ InBuf \cap HeldSet = {}
        /\ \A r, q \in 1..NR : r # q /\ s.held[r] # 0 => s.held[r] # s.held[q]
NoneBlocked == s.rq = <<>> => \A id \in DOMAIN s.op :
    /\ ~s.closed
    /\ IF s.op[id].k = "send" THEN Len(s.buf) = Limit
       ELSE s.buf = <<>> /\ s.held[s.op[id].o] = 0
FrozenWhenClosed == [][s.closed => s'.closed /\ Len(s'.buf) <= Len(s.buf)]_vars
=============================================================================
