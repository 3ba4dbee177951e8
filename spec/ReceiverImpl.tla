---------------------------- MODULE ReceiverImpl ----------------------------
(***************************************************************************)
(* The design all receivers share, against ReceiverContract: ready() waits *)
(* until there is a message or the stop, in a loop that looks again after  *)
(* each wake-up; consume() takes the message, and maps it; anext and       *)
(* receive() are a ready() and a consume() in one step.                    *)
(*                                                                         *)
(* Coalesce: an event.  Map: one mapping function, which raises on message *)
(* 2.  Recheck and WakeAll are TRUE for the design as it is; FALSE gives   *)
(* back defects that were found and repaired (see DESIGN.md).              *)
(***************************************************************************)
EXTENDS ReceiverContract, Loop, Json

CONSTANTS Coalesce, Map, MaxMsgs, MaxPend, MaxActs, Kinds, Recheck, WakeAll, Emit

VARIABLES s, cs, nmsg, acts, sched
vars == <<s, cs, nmsg, acts, sched>>

Wake(t) == IF WakeAll THEN NotifyAll(t, "r") ELSE Notify(t, "r", 1)

Applied(t, v) == Out(t, <<"apply", 1, v>>)

\* consume(): the new state, the outcome and the message
Take(t) ==
    LET v == Head(t.buf)
        u == [t EXCEPT !.buf = Tail(@), !.rdy = FALSE]
    IN IF t.buf = <<>> THEN <<t, IF t.stop THEN "stopped" ELSE "other", 0>>
       ELSE IF Map THEN <<Applied(u, v), IF v = 2 THEN "raised" ELSE "val", v>>
       ELSE <<u, "val", v>>

Got(t, id) ==
    LET r == Take(t)  k == t.op[id].k IN
    Finish(r[1], id, IF r[2] = "stopped" /\ k = "anext" THEN "end" ELSE r[2], r[3])

Finishes(t, id) ==
    IF t.op[id].k = "ready"
    THEN Finish([t EXCEPT !.rdy = TRUE], id, IF t.buf # <<>> \/ ~t.stop THEN "true" ELSE "false", 0)
    ELSE Got(t, id)

Run(t, id) == IF t.buf # <<>> \/ t.stop THEN Finishes(t, id) ELSE Wait(t, id, "r")

StartOp(t, k) == LET id == FreeId(t) IN Run(NewOp(t, id, k, 0, 0), id)

RunHead(t) ==
    LET id == WokenOp(t)  u == Resume(t) IN
    IF WokenByCancel(t) THEN Finish(u, id, "cancelled", 0)
    ELSE IF Recheck THEN Run(u, id) ELSE Finishes(u, id)

OfferOp(t, v) ==
    Wake([t EXCEPT !.buf = IF Coalesce /\ @ # <<>> THEN @ ELSE Append(@, v),
                   !.out = <<<<"offer", 1, <<v>>, Map /\ v = 2>>>>])
StopOp(t) == NotifyAll([t EXCEPT !.stop = TRUE, !.out = <<<<"stop", 1>>>>], "r")
ConsumeOp(t) == LET r == Take([t EXCEPT !.rdy = FALSE]) IN Out(r[1], <<"consume", r[2], r[3]>>)

(* -------------------- the contract's state, in step -------------------- *)
RECURSIVE Observe(_, _)
Observe(S, evs) == IF evs = <<>> THEN S
                   ELSE Observe(UNION {Step(c, Head(evs)) : c \in S}, Tail(evs))

Do(t, a) == /\ s' = [t EXCEPT !.out = <<>>]
            /\ cs' = Observe(cs, t.out)
            /\ sched' = Append(sched, a)
            /\ acts' = acts + (IF a[1] = "step" THEN 0 ELSE 1)

Init == /\ s = [buf |-> <<>>, stop |-> FALSE, rdy |-> FALSE, op |-> <<>>,
                cv |-> [x \in {"r"} |-> <<>>], rq |-> <<>>, out |-> <<>>]
        /\ cs = {C0(1, Coalesce, IF Map THEN 1 ELSE 0)}
        /\ nmsg = 0 /\ acts = 0 /\ sched = <<>>

AOffer == /\ acts < MaxActs /\ nmsg < MaxMsgs /\ ~s.stop /\ nmsg' = nmsg + 1
          /\ Do(OfferOp(s, IF Coalesce THEN 0 ELSE nmsg + 1), <<"offer", 1>>)
AStart == /\ acts < MaxActs /\ Cardinality(DOMAIN s.op) < MaxPend /\ UNCHANGED nmsg
          /\ \E k \in Kinds : Do(StartOp(s, k), <<"start", k, 0, 0>>)
AStop == /\ acts < MaxActs /\ ~s.stop /\ UNCHANGED nmsg /\ Do(StopOp(s), <<"stop", 1>>)
ACancel == /\ acts < MaxActs /\ UNCHANGED nmsg
           /\ \E id \in DOMAIN s.op : /\ ~s.op[id].mc /\ s.op[id].f # "c"
                                      /\ Do(CancelOp([s EXCEPT !.out = <<>>], id), <<"cancel", id>>)
AConsume == acts < MaxActs /\ s.rdy /\ UNCHANGED nmsg /\ Do(ConsumeOp(s), <<"consume">>)
ARun == s.rq # <<>> /\ UNCHANGED nmsg /\ Do(RunHead(s), <<"step">>)

Next == AOffer \/ AStart \/ AStop \/ ACancel \/ AConsume \/ ARun
Spec == Init /\ [][Next]_vars

View == <<s, cs, nmsg, acts>>
Schedules == Emit => PrintT("S" \o ToJson(sched'))

(* ------------------------------ properties ----------------------------- *)
Implements == cs # {}
Rests == s.rq = <<>> => \E c \in cs : Quiet(c, TRUE) # {}

\* The same, stated directly on the design.
NoneBlocked == s.rq = <<>> => (s.op = <<>> \/ (s.buf = <<>> /\ ~s.stop))
\* what the program was told is ready stays so
StaysReady == s.rdy => (s.buf # <<>> \/ s.stop)
Final == [][s.stop => (s'.stop /\ Len(s'.buf) <= Len(s.buf))]_vars
=============================================================================
