--------------------------- MODULE BroadcastImpl ---------------------------
(***************************************************************************)
(* The design of Broadcast, checked exhaustively against BroadcastContract *)
(* and printing the schedules to replay, as AnycastImpl does.              *)
(*                                                                         *)
(* Message 1 stands for None.  ResendNone and WakeAll are TRUE for the     *)
(* design as it is; FALSE gives back a defect (the first one was found     *)
(* and repaired, see DESIGN.md), reported by TLC.                          *)
(***************************************************************************)
EXTENDS BroadcastContract, Loop, Json

CONSTANTS Resend, Limits, MaxRecv, MaxMsgs, MaxPend, MaxActs, Kinds, Drops, Switches,
          ResendNone, WakeAll, Emit

VARIABLES s, cs, nmsg, acts, sched
vars == <<s, cs, nmsg, acts, sched>>

(* ------------------------------ the code ------------------------------- *)
Wake(t) == IF WakeAll THEN NotifyAll(t, "r") ELSE Notify(t, "r", 1)

Enqueue(t, r, v) ==
    [t EXCEPT !.q[r] = Append(IF Len(@) = t.lim[r] THEN Tail(@) ELSE @, v)]
RECURSIVE EnqueueAll(_, _, _)
EnqueueAll(t, r, v) ==
    IF r > Len(t.q) THEN t
    ELSE EnqueueAll(IF r \in t.gone THEN t ELSE Enqueue(t, r, v), r + 1, v)

SendRun(t, id) ==
    IF t.closed THEN Finish(t, id, "closed", 0)
    ELSE LET v == t.op[id].v IN Finish(Wake(EnqueueAll([t EXCEPT !.latest = v], 1, v)), id, "ok", 0)

CloseRun(t, id) == Finish(NotifyAll([t EXCEPT !.closed = TRUE, !.latest = 0], "r"), id, "ok", 0)

RecvRun(t, id) ==
    LET p == t.op[id]  q == t.q[p.o] IN
    IF q # <<>>
    THEN IF p.k = "ready" THEN Finish([t EXCEPT !.rdy = @ \cup {p.o}], id, "true", 0)
         ELSE Finish([t EXCEPT !.q[p.o] = Tail(@), !.rdy = @ \ {p.o}], id, "val", Head(q))
    ELSE IF t.closed
    THEN IF p.k = "ready" THEN Finish([t EXCEPT !.rdy = @ \cup {p.o}], id, "false", 0)
         ELSE Finish(t, id, IF p.k = "recv" THEN "stopped" ELSE "end", 0)
    ELSE Wait(t, id, "r")

StartOp(t, k, o, v) ==
    LET id == FreeId(t)  u == NewOp(t, id, k, o, v) IN
    CASE k = "send"  -> SendRun(u, id)
      [] k = "close" -> CloseRun(u, id)
      [] OTHER       -> RecvRun(u, id)

RunHead(t) ==
    LET id == WokenOp(t)  u == Resume(t) IN
    IF WokenByCancel(t) THEN Finish(u, id, "cancelled", 0) ELSE RecvRun(u, id)

ConsumeOp(t, r) ==
    IF t.q[r] # <<>>
    THEN [t EXCEPT !.q[r] = Tail(@), !.rdy = @ \ {r}, !.out = <<<<"consume", r, "val", Head(t.q[r])>>>>]
    ELSE [t EXCEPT !.rdy = @ \ {r},
                   !.out = <<<<"consume", r, IF t.closed THEN "stopped" ELSE "other", 0>>>>]

NewOne(t, limit) ==
    LET r == Len(t.q) + 1
        has == t.resend /\ t.latest # 0 /\ (ResendNone \/ t.latest # 1)
        u == [t EXCEPT !.q = Append(@, IF has THEN <<t.latest>> ELSE <<>>), !.lim = Append(@, limit)]
    IN [u EXCEPT !.out = <<<<"newr", r, limit, Len(u.q[r])>>>>]

(* -------------------- the contract's state, in step -------------------- *)
RECURSIVE Observe(_, _)
Observe(S, evs) == IF evs = <<>> THEN S
                   ELSE Observe(UNION {Step(c, Head(evs)) : c \in S}, Tail(evs))

Do(t, a) == /\ s' = [t EXCEPT !.out = <<>>]
            /\ cs' = Observe(cs, t.out)
            /\ sched' = Append(sched, a)
            /\ acts' = acts + (IF a[1] = "step" THEN 0 ELSE 1)

Init == /\ s = [resend |-> Resend, q |-> <<>>, lim |-> <<>>, gone |-> {}, closed |-> FALSE, latest |-> 0,
                rdy |-> {}, op |-> <<>>, cv |-> [x \in {"r"} |-> <<>>], rq |-> <<>>,
                out |-> <<>>]
        /\ cs = {C0(Resend)}
        /\ nmsg = 0 /\ acts = 0 /\ sched = <<>>

Alive == DOMAIN s.q \ s.gone
Room == acts < MaxActs /\ Cardinality(DOMAIN s.op) < MaxPend
ANew == /\ acts < MaxActs /\ Len(s.q) < MaxRecv /\ UNCHANGED nmsg
        /\ \E l \in Limits : Do(NewOne(s, l), <<"newr", l>>)
ASend == /\ Room /\ nmsg < MaxMsgs /\ nmsg' = nmsg + 1
         /\ Do(StartOp(s, "send", 1, nmsg + 1), <<"start", "send", 1, nmsg + 1>>)
AReceive == /\ Room /\ UNCHANGED nmsg
            /\ \E k \in Kinds, r \in Alive : Do(StartOp(s, k, r, 0), <<"start", k, r, 0>>)
AClose == /\ Room /\ UNCHANGED nmsg /\ ~s.closed
          /\ Do(StartOp(s, "close", 0, 0), <<"start", "close", 0, 0>>)
ACancel == /\ acts < MaxActs /\ UNCHANGED nmsg
           /\ \E id \in DOMAIN s.op : /\ ~s.op[id].mc /\ s.op[id].f # "c"
                                      /\ Do(CancelOp(s, id), <<"cancel", id>>)
AConsume == /\ acts < MaxActs /\ UNCHANGED nmsg
            /\ \E r \in s.rdy \ s.gone : Do(ConsumeOp(s, r), <<"consume", r>>)
ADrop == /\ Drops /\ acts < MaxActs /\ UNCHANGED nmsg
         /\ \E r \in Alive : /\ \A id \in DOMAIN s.op : s.op[id].o # r \/ s.op[id].k \in {"send", "close"}
                             /\ Do([s EXCEPT !.gone = @ \cup {r}, !.out = <<<<"drop", r>>>>], <<"drop", r>>)
\* resend_latest can be changed at any time
ASwitch == /\ Switches /\ acts < MaxActs /\ UNCHANGED nmsg
           /\ Do([s EXCEPT !.resend = ~@, !.out = <<<<"resend", ~s.resend>>>>], <<"resend", ~s.resend>>)
ARun == s.rq # <<>> /\ UNCHANGED nmsg /\ Do(RunHead(s), <<"step">>)

Next == ANew \/ ASend \/ AReceive \/ AClose \/ ACancel \/ AConsume \/ ADrop \/ ASwitch \/ ARun
Spec == Init /\ [][Next]_vars

View == <<s, cs, nmsg, acts>>
Schedules == Emit => PrintT("S" \o ToJson(sched'))

(* ------------------------------ properties ----------------------------- *)
Implements == cs # {}
Rests == s.rq = <<>> => \E c \in cs : Quiet(c) # {}

\* The same, stated directly on the design.
Bounded == \A r \in DOMAIN s.q : Len(s.q[r]) <= s.lim[r]
\* every buffer is a run of consecutive messages, up to the last one sent
Newest == \A r \in Alive : \A i \in 1..Len(s.q[r]) :
             s.q[r][i] = s.q[r][1] + i - 1
NoneBlocked == s.rq = <<>> => \A id \in DOMAIN s.op : ~s.closed /\ s.q[s.op[id].o] = <<>>
FrozenWhenClosed == [][s.closed => /\ s'.closed
                                   /\ \A r \in DOMAIN s.q : Len(s'.q[r]) <= Len(s.q[r])]_vars
=============================================================================
