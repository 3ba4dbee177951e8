-------------------------------- MODULE Loop --------------------------------
(***************************************************************************)
(* asyncio as the channels see it: tasks run one at a time, in the order   *)
(* in which they were made ready, from one suspension to the next.         *)
(*                                                                         *)
(* The design specifications keep in their state record s                  *)
(*    op   pending operations, id -> [k, o, v, cv, f, mc]: the condition   *)
(*         variable cv it waits for, the state f of the future it waits    *)
(*         on ("w"aiting, "d"one, "c"ancelled), and mc: to be cancelled    *)
(*         although its future is done already                             *)
(*    cv   the waiters of each condition variable, in order                *)
(*    rq   the ready queue: operations whose task will run, in order       *)
(*    out  the events of the current step                                  *)
(* Condition's lock is never held across a suspension in this code, so     *)
(* taking it never blocks and is not modelled.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* asyncio.Condition.notify(n): wakes the first n waiters not woken already
RECURSIVE NotifyFrom(_, _, _, _)
NotifyFrom(s, cv, i, n) ==
    IF n = 0 \/ i > Len(s.cv[cv]) THEN s
    ELSE LET id == s.cv[cv][i] IN
         IF s.op[id].f # "w" THEN NotifyFrom(s, cv, i + 1, n)
         ELSE NotifyFrom([s EXCEPT !.op[id].f = "d", !.rq = Append(@, id)],
                         cv, i + 1, n - 1)
Notify(s, cv, n) == NotifyFrom(s, cv, 1, n)
NotifyAll(s, cv) == NotifyFrom(s, cv, 1, Len(s.cv[cv]))

\* Condition.wait(): the task is suspended
Wait(s, id, cv) == [s EXCEPT !.op[id].cv = cv, !.op[id].f = "w", !.op[id].mc = FALSE,
                             !.cv[cv] = Append(@, id)]

\* Task.cancel()
CancelOp(s, id) ==
    IF s.op[id].f = "w" THEN [s EXCEPT !.op[id].f = "c", !.rq = Append(@, id)]
    ELSE [s EXCEPT !.op[id].mc = TRUE]

\* The task at the head of the ready queue resumes from Condition.wait()
WokenOp(s) == Head(s.rq)
WokenByCancel(s) == LET p == s.op[Head(s.rq)] IN p.f = "c" \/ p.mc
Resume(s) == LET id == Head(s.rq) IN
    [s EXCEPT !.rq = Tail(@),
              !.cv[s.op[id].cv] = SelectSeq(@, LAMBDA x : x # id)]

Out(s, e) == [s EXCEPT !.out = Append(@, e)]
Finish(s, id, res, v) ==
    [s EXCEPT !.op = [x \in DOMAIN @ \ {id} |-> @[x]],
              !.out = Append(@, <<"ret", id, res, v>>)]
NewOp(s, id, k, o, v) ==
    [s EXCEPT !.op = (id :> [k |-> k, o |-> o, v |-> v, cv |-> "", f |-> "", mc |-> FALSE]) @@ @,
              !.out = <<<<"call", id, k, o, v>>>>]
FreeId(s) == CHOOSE i \in 1..(Cardinality(DOMAIN s.op) + 1) :
                i \notin DOMAIN s.op /\ \A j \in 1..(i - 1) : j \in DOMAIN s.op
=============================================================================
