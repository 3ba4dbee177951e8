----------------------------- MODULE WatcherImpl -----------------------------
(***************************************************************************)
(* The design of FileWatcher, checked exhaustively against                 *)
(* ReceiverContract and printing the schedules to replay.                  *)
(*                                                                         *)
(* The watch backend reports sets of changes, of which those of selected   *)
(* types get to awatch(), an asynchronous generator that ends for good if  *)
(* it is cancelled and refuses to be awaited twice at once.  So one        *)
(* background task waits for its next report, and all tasks waiting for    *)
(* the watcher wait for that task.                                         *)
(*                                                                         *)
(* A report is a set of changes <<type, path>>; types 1 and 2 are          *)
(* selected, 3 is not.  Shared, Filter and Ends are TRUE for the design as *)
(* it is; Shared = FALSE gives back a defect that was found and repaired.  *)
(***************************************************************************)
EXTENDS ReceiverContract, Json

CONSTANTS Reports, MaxReports, MaxPend, MaxActs, Kinds, Drops, Shared, Filter, Ends, Emit

VARIABLES s, cs, nrep, acts, sched
vars == <<s, cs, nrep, acts, sched>>

Log(t, e) == [t EXCEPT !.out = Append(@, e)]
Push(t, h) == [t EXCEPT !.rq = Append(@, h)]
RECURSIVE PushAll(_, _)
PushAll(t, hs) == IF hs = <<>> THEN t ELSE PushAll(Push(t, Head(hs)), Tail(hs))
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN <<x>> \o SeqOf(S \ {x})
Selected(r) == {i \in r : i % 3 # 0}      \* change (type k, path p) is number 3 p + k

(* The background task: "none", "new" or "woken" (it will run), "wait" (for the
   backend), "done"; tv: what it returned, {} the end.                        *)
Completes(t, v) == PushAll([t EXCEPT !.tst = "done", !.tv = v, !.cbs = <<>>], t.cbs)
RECURSIVE TaskRun(_)
TaskRun(t) ==
    IF t.buf # <<>>
    THEN LET v == IF Filter THEN Selected(Head(t.buf)) ELSE Head(t.buf)
             u == [t EXCEPT !.buf = Tail(@)]
         IN IF v = {} THEN TaskRun(u) ELSE Completes(u, v)
    ELSE IF t.bstop THEN Completes(t, {}) ELSE [t EXCEPT !.tst = "wait"]
WakeTask(t) == IF t.tst = "wait" THEN Push([t EXCEPT !.tst = "woken"], <<"task", 0>>) ELSE t

Finish(t, id, res, v) ==
    Log([t EXCEPT !.op = [x \in DOMAIN @ \ {id} |-> @[x]]], <<"ret", id, res, v>>)
Register(t, id) ==
    LET u == [t EXCEPT !.op[id].f = "w", !.op[id].mc = FALSE] IN
    IF t.tst = "done" THEN Push(u, <<"cb", id>>) ELSE [u EXCEPT !.cbs = Append(@, <<"cb", id>>)]
Unregister(t, id) ==
    [t EXCEPT !.cbs = SelectSeq(@, LAMBDA h : h # <<"cb", id>>),
              !.rq = [n \in 1..Len(@) |-> IF @[n] = <<"cb", id>> THEN <<"nop", 0>> ELSE @[n]]]

Take(t) ==   \* any change, here the smallest
    IF t.ch # {}
    THEN LET v == CHOOSE x \in t.ch : \A y \in t.ch : x <= y
         IN <<[t EXCEPT !.ch = @ \ {v}, !.rdy = FALSE], "val", v>>
    ELSE IF t.ended THEN <<t, "stopped", 0>> ELSE <<t, "other", 0>>
ReadyIs(t, id, active) ==
    IF t.op[id].k = "ready" THEN Finish([t EXCEPT !.rdy = TRUE], id, IF active THEN "true" ELSE "false", 0)
    ELSE LET r == Take(t) IN
         Finish(r[1], id, IF r[2] = "stopped" /\ t.op[id].k = "anext" THEN "end" ELSE r[2], r[3])

Run(t, id) ==
    IF t.ch # {} THEN ReadyIs(t, id, TRUE)
    ELSE IF t.ended THEN ReadyIs(t, id, FALSE)
    ELSE IF t.tst = "none"
    THEN Register(Push([t EXCEPT !.tst = "new"], <<"task", 0>>), id)
    ELSE IF Shared THEN Register(t, id)
    ELSE Finish(t, id, "other", 0)     \* asynchronous generator is already running

\* asyncio.wait() ended in operation id; the first one to run takes the result
Awaited(t, id) ==
    IF t.tst # "done" THEN Run(t, id)
    ELSE Run(IF t.tv = {} THEN [t EXCEPT !.tst = "none", !.ended = TRUE]
             ELSE [t EXCEPT !.tst = "none", !.ch = t.tv], id)

FreeId(t) == CHOOSE i \in 1..(Cardinality(DOMAIN t.op) + 1) :
                i \notin DOMAIN t.op /\ \A j \in 1..(i - 1) : j \in DOMAIN t.op
StartOp(t, k) ==
    LET id == FreeId(t) IN
    Run(Log([t EXCEPT !.op = (id :> [k |-> k, f |-> "", mc |-> FALSE]) @@ @], <<"call", id, k, 0, 0>>), id)
CancelOp(t, id) ==
    IF t.op[id].f = "w" THEN Push([t EXCEPT !.op[id].f = "c"], <<"run", id>>) ELSE [t EXCEPT !.op[id].mc = TRUE]
OpRun(t, id) ==
    LET u == Unregister(t, id) IN
    IF t.op[id].f = "c" \/ t.op[id].mc
    THEN Finish(IF Shared \/ u.tst = "done" THEN u ELSE Completes(u, {}), id, "cancelled", 0)
    ELSE Awaited(u, id)
RunHead(t0) ==
    LET h == Head(t0.rq)  t == [t0 EXCEPT !.rq = Tail(@)] IN
    CASE h[1] = "task" -> IF t.tst \in {"new", "woken"} THEN TaskRun(t) ELSE t
      [] h[1] = "run"  -> OpRun(t, h[2])
      [] h[1] = "cb"   -> IF t.op[h[2]].f = "w" THEN Push([t EXCEPT !.op[h[2]].f = "d"], <<"run", h[2]>>) ELSE t
      [] OTHER         -> t

ReportOp(t, r) ==
    WakeTask([t EXCEPT !.buf = Append(@, r),
                       !.out = IF Selected(r) = {} THEN <<>> ELSE <<<<"offer", 1, SeqOf(Selected(r)), FALSE>>>>])
\* The program drops the watcher, which tells awatch() to end
DropOp(t) == WakeTask([t EXCEPT !.bstop = Ends, !.gone = TRUE, !.out = <<<<"gone">>>>])
StopOp(t) == WakeTask([t EXCEPT !.bstop = TRUE, !.out = <<<<"stop", 1>>>>])
ConsumeOp(t) == LET r == Take([t EXCEPT !.rdy = FALSE]) IN Log(r[1], <<"consume", r[2], r[3]>>)

RECURSIVE Observe(_, _)
Observe(S, evs) == IF evs = <<>> THEN S
                   ELSE Observe(UNION {Step(c, Head(evs)) : c \in S}, Tail(evs))

Do(t, a) == /\ s' = [t EXCEPT !.out = <<>>]
            /\ cs' = Observe(cs, t.out)
            /\ sched' = Append(sched, a)
            /\ acts' = acts + (IF a[1] = "step" THEN 0 ELSE 1)

Init == /\ s = [buf |-> <<>>, bstop |-> FALSE, tst |-> "none", tv |-> {}, cbs |-> <<>>, ch |-> {},
                ended |-> FALSE, gone |-> FALSE, rdy |-> FALSE, op |-> <<>>, rq |-> <<>>, out |-> <<>>]
        /\ cs = {C0(1, FALSE, 0)}
        /\ nrep = 0 /\ acts = 0 /\ sched = <<>>

\* Kinds of reports: the types of its changes, of path number nrep
Changes(r) == {3 * nrep + k : k \in r}
AReport == /\ acts < MaxActs /\ ~s.gone /\ nrep < MaxReports /\ ~s.bstop /\ nrep' = nrep + 1
           /\ \E i \in 1..Len(Reports) :
                Do(ReportOp(s, Changes(ToSet(Reports[i]))),
                   <<"report", [j \in 1..Len(Reports[i]) |-> <<Reports[i][j], nrep>>]>>)
AStart == /\ acts < MaxActs /\ ~s.gone /\ Cardinality(DOMAIN s.op) < MaxPend /\ UNCHANGED nrep
          /\ \E k \in Kinds : Do(StartOp(s, k), <<"start", k, 0, 0>>)
AStop == /\ acts < MaxActs /\ ~s.bstop /\ UNCHANGED nrep /\ Do(StopOp(s), <<"stop", 1>>)
ACancel == /\ acts < MaxActs /\ UNCHANGED nrep
           /\ \E id \in DOMAIN s.op : /\ ~s.op[id].mc /\ s.op[id].f # "c"
                                      /\ Do(CancelOp(s, id), <<"cancel", id>>)
ADrop == /\ Drops /\ acts < MaxActs /\ ~s.gone /\ s.op = <<>> /\ UNCHANGED nrep
         /\ Do(DropOp(s), <<"drop">>)
AConsume == acts < MaxActs /\ s.rdy /\ ~s.gone /\ UNCHANGED nrep /\ Do(ConsumeOp(s), <<"consume">>)
ARun == s.rq # <<>> /\ UNCHANGED nrep /\ Do(RunHead(s), <<"step">>)

Next == AReport \/ AStart \/ AStop \/ ACancel \/ AConsume \/ ADrop \/ ARun
Spec == Init /\ [][Next]_vars

View == <<s, cs, nrep, acts>>
Schedules == Emit => PrintT("S" \o ToJson(sched'))

(* ------------------------------ properties ----------------------------- *)
Implements == cs # {}
Rests == s.rq = <<>> => \E c \in cs : Quiet(c, TRUE) # {}

\* The same, stated directly on the design.
NoneBlocked == s.rq = <<>> => (s.op = <<>> \/ (s.tst = "wait" /\ s.ch = {} /\ s.buf = <<>> /\ ~s.bstop))
OnlySelected == s.ch = Selected(s.ch)
NoTasksLeft == (s.rq = <<>> /\ s.gone) => s.tst # "wait"
EndsOnlyIfStopped == s.ended => s.bstop
=============================================================================
