#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that wording stays reviewable)."""
import json, pathlib
S = "src/frequenz/channels/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
            state=[dict(name=n, meaning=m, where=S + w) for n, m, w in state],
            mechanism=[dict(name=n, where=S + w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

AC = [("buffer", "messages sent and not yet taken", "_anycast.py:Anycast.__init__"),
      ("closed flag", "channel closed", "_anycast.py:Anycast.__init__"),
      ("parked message", "message a ready receiver holds until consumed", "_anycast.py:_Receiver.__init__")]
ACM = [("send loop + condition", "_anycast.py:_Sender.send"), ("ready loop + condition", "_anycast.py:_Receiver.ready"), ("close notifies both conditions", "_anycast.py:Anycast.close")]
ACO = ["Sender.send()", "Receiver.receive()/ready()/consume()", "Anycast.close()/is_closed/limit"]
p("A01", "Anycast: each message reaches exactly one receive, none lost or duplicated",
  "Every message whose send completes on an anycast channel is handed to exactly one receive operation among all the channel's receivers: it is never lost, duplicated, altered or invented, whatever its value and however sends, receives, readiness waits and cancellations interleave, including several waits at once on one receiver. A cancelled receive takes no message away, a message a receiver was found ready with stays with that receiver until consumed, and a cancelled or failed send delivers nothing.",
  ["schedules", "histories", "inputs"], "all interleavings of any number of senders, receivers, waits, cancellations and a close, all message values, all buffer sizes",
  "Tests check sums of received values for one schedule; none cancels an operation, mixes ready() with receive(), or has two waits on one receiver.", ["_anycast.py", "_receiver.py"], ACM, ACO, AC)
p("A02", "Anycast: messages are received in the order they were sent",
  "Messages leave an anycast channel in the order in which they entered it: when one send completed before another began, the earlier message is never taken after the later one. This holds across senders and receivers, with blocked senders, and through cancellations.",
  ["schedules", "histories"], "all interleavings of sends and receives, all buffer sizes", "Order is only asserted for one sender and one receiver with no contention.", ["_anycast.py"], ACM, ACO, AC)
p("A03", "Anycast: the buffer bound holds and a full channel blocks senders",
  "An anycast channel never holds more sent-but-untaken messages than its limit: a send on a full channel completes only after a receiver has taken a message, and no message is discarded to make room. The limit the channel reports is the one it was created with.",
  ["schedules", "configurations"], "all limits >= 1 and all interleavings of competing senders and receivers", "One test fills a buffer of 10 with one sender; competing senders and woken senders that find the buffer full again are never exercised.", ["_anycast.py"], ACM, ACO, AC)
p("A04", "Anycast: no operation stays blocked when it could proceed",
  "Whenever the event loop comes to rest, no receive or readiness wait on an anycast channel is left waiting while the channel holds a message or is closed, and no send is left waiting while the buffer has room or the channel is closed. This holds also when waiting operations are cancelled at any moment, including after they were woken but before they ran.",
  ["schedules", "fault_sequences"], "all interleavings and all cancellation points", "No test cancels a waiter or has several waiters competing for one notification, which is where wake-ups get lost.", ["_anycast.py"], ACM, ACO, AC)
p("A05", "Anycast: closing rejects sends, lets receivers drain, then stops them",
  "Once an anycast channel is closed, every send that has not completed, including one already blocked on a full buffer, fails with a sender error naming that sender and caused by a channel-closed error naming that channel, and its message is never delivered. Messages already in the channel are still delivered, and only after that receiving fails with a receiver-stopped error naming the receiver and caused by the channel-closed error; nothing is reported as closed or stopped before the close.",
  ["schedules", "histories"], "all positions of the close relative to pending and later operations, repeated closes", "Tests only close a channel on which nothing is blocked and use one pending message.", ["_anycast.py", "_receiver.py", "_exceptions.py"], ACM, ACO, AC)

BC = [("per-receiver queue", "messages broadcast and not yet consumed", "_broadcast.py:_Receiver.__init__"), ("receivers table", "weak references to live receivers", "_broadcast.py:Broadcast.__init__"), ("latest", "last message broadcast", "_broadcast.py:Broadcast.__init__")]
BM = [("fan-out in send", "_broadcast.py:_Sender.send"), ("enqueue with drop-oldest", "_broadcast.py:_Receiver.enqueue"), ("ready loop", "_broadcast.py:_Receiver.ready"), ("close", "_broadcast.py:Broadcast.close")]
BO = ["Sender.send()", "Broadcast.new_receiver()/close()", "Receiver.receive()/ready()/consume()/len()"]
p("B01", "Broadcast: every receiver gets every later message once, all in one order",
  "Every receiver of a broadcast channel receives each message sent after the receiver was created exactly once (unless its own buffer overflowed), unaltered and whatever its value, and all receivers see the messages in the same order, the order in which they were sent. One receiver consuming, lagging, waiting, being cancelled or going away never changes what another receives, and a cancelled receive takes no message away.",
  ["schedules", "histories", "inputs"], "all interleavings of senders, receivers joining and leaving, receives and cancellations", "Tests compare sums for a fixed set of receivers; order across receivers and senders, joins and leaves under traffic and cancellations are not covered.", ["_broadcast.py", "_receiver.py"], BM, BO, BC)
p("B02", "Broadcast: overflow drops only the oldest, only in the lagging receiver",
  "A broadcast receiver buffers at most its own limit of messages and on overflow loses exactly the oldest buffered message, so it always holds the newest messages in order; other receivers and their buffers are unaffected. A send on an open broadcast channel always completes without waiting for any receiver, and a receiver's length is the number of messages it has buffered.",
  ["histories", "configurations"], "all receiver limits >= 1 and all mixes of sends and receives", "One scenario with limits 5 and 10 is checked by sums.", ["_broadcast.py"], BM, BO, BC)
p("B03", "Broadcast: a new receiver starts with the latest message iff resending",
  "When latest-message resending is enabled, a receiver created while the channel is open starts with exactly one message, the last one sent on the channel whatever its value, if any was sent, and then continues with the following messages without loss or duplication. When it is disabled, or the channel is closed, or nothing was sent, a new receiver starts empty.",
  ["histories", "configurations", "inputs"], "all positions of receiver creation, all message values, both settings", "Two scenarios with integer messages; never with None, before the first message, or around a close.", ["_broadcast.py"], BM, BO, BC)
p("B04", "Broadcast: closing rejects sends, lets receivers drain, then stops them",
  "Once a broadcast channel is closed every later send fails with a sender error naming that sender and caused by a channel-closed error naming that channel, and reaches no receiver. Each receiver still gets the messages it has buffered and only then fails with a receiver-stopped error naming the receiver and caused by the channel-closed error; nothing is reported as closed or stopped before the close.",
  ["schedules", "histories"], "all positions of the close, including with receivers waiting or lagging, and receivers created after it", "Tests close with nothing buffered or waiting.", ["_broadcast.py", "_receiver.py", "_exceptions.py"], BM, BO, BC)
p("B05", "Broadcast: no receiver stays blocked with a message buffered or after close",
  "Whenever the event loop comes to rest, no receive or readiness wait on a broadcast receiver is left waiting while that receiver has a buffered message or the channel is closed. This holds for any number of receivers waiting at once and for cancellations at any moment.",
  ["schedules", "fault_sequences"], "all interleavings and all cancellation points", "No test has several operations waiting while some are cancelled.", ["_broadcast.py"], BM, BO, BC)
p("B06", "Broadcast: dropped receivers are released and do not disturb the others",
  "A broadcast channel does not keep a receiver alive: once the program drops its last reference the receiver is released, also while messages keep being sent or the channel is closed. Sends before, during and after the drop still reach every remaining receiver.",
  ["histories"], "all orders of creating, dropping and sending", "One test drops one receiver and sends once.", ["_broadcast.py"], BM, BO, BC)

RM = [("async-iterator protocol", "_receiver.py:Receiver.__anext__"), ("receive()", "_receiver.py:Receiver.receive"), ("ready()/consume() of each receiver kind", "_receiver.py:Receiver")]
RO = ["ready()", "consume()", "receive()", "async iteration"]
ALL = ["_receiver.py", "_anycast.py", "_broadcast.py", "_merge.py", "event.py", "timer.py", "file_watcher.py"]
p("R01", "Receivers: ready() is idempotent, cancellable and safe to call concurrently",
  "For every receiver kind (anycast, broadcast, event, timer, file watcher, merged, mapped), once a readiness wait has reported the receiver active it stays ready until consumed, and one consume then returns exactly the next message; repeating the wait, cancelling it, or having several waits or receives outstanding on the same receiver neither loses, duplicates nor reorders messages and never makes a receive fail. A wait never returns active while there is nothing to consume, and never raises by itself.",
  ["schedules", "histories", "fault_sequences"], "all receiver kinds, all sequences and overlaps of ready/consume/receive/cancel with message arrival", "Tests mostly use receive(); ready() is never overlapped, repeated or cancelled, yet select() restarted after a break does all three.", ALL, RM, RO)
p("R02", "Receivers: stopping is reported uniformly, after pending messages, and is final",
  "For every receiver kind, once stopped and drained a readiness wait returns inactive at once, consume and receive raise a receiver-stopped error (receive: naming the receiver it was called on) and async iteration ends normally, and this stays so however often they are called; while messages are still pending they are delivered first and the wait still reports active. Operations already waiting when the receiver stops are released with the same outcome, and none of these outcomes appears before the stop.",
  ["schedules", "histories"], "all receiver kinds, stop at every point relative to waits and pending messages, repeated use after the stop", "Tests check a single receive after a stop for some kinds.", ALL, RM, RO)
p("R03", "Receivers: map() transforms every message once, in order, and nothing else",
  "A mapped receiver yields the mapping function applied to each message of the underlying receiver, in order, calling the function exactly once per consumed message and never for messages that were not consumed. If the function raises, that error reaches the consumer of that message only, later messages still arrive, and a stop of the underlying receiver stops the mapped one.",
  ["histories", "inputs"], "all message sequences, all failing subsets, nested maps, readiness and cancellation interleavings", "Tests map two messages with a pure function.", ["_receiver.py"], [("_Mapper", "_receiver.py:_Mapper")], RO)

p("R04", "Receivers: a dropped receiver is released and leaves nothing running",
  "For every receiver kind, once the program drops its last reference to a receiver on which no operation is waiting, the receiver is released and, after the event loop has run, no background task and no file system watch started for it remains, whatever was received, waited for or cancelled before, and also when messages keep arriving. For mapped and merged receivers this includes the receivers they were made from if nothing else refers to those.",
  ["schedules", "histories"], "all histories of a receiver before it is dropped, including cancelled waits and messages that arrived but were not consumed", "Tests never drop a receiver and look at what is left; leaks show only as tasks or watches that stay behind.", ["_receiver.py", "_merge.py", "file_watcher.py"], [("finalizers", "file_watcher.py:FileWatcher.__del__, _merge.py:Merger.__del__"), ("background tasks", "file_watcher.py:FileWatcher.ready, _merge.py:Merger.ready")], ["references to the receiver", "tasks of the event loop", "watches of the backend"])

MM = [("one task per source, collected by ready()", "_merge.py:Merger.ready"), ("consume", "_merge.py:Merger.consume"), ("stop", "_merge.py:Merger.stop")]
MO = ["merge()", "Merger.receive()/ready()/consume()/stop()", "tasks of the event loop"]
p("M01", "Merge: every source message comes out exactly once, in its source's order",
  "A merged receiver yields every message of every source exactly once and unaltered, and messages of one source come out in that source's order, for any number of sources, message values and interleaving of arrivals, closes and consumption, and when waits on the merged receiver are cancelled or overlap.",
  ["schedules", "histories"], "all interleavings over any number of sources", "One run with two channels compares sets of adjacent pairs.", ["_merge.py"], MM, MO)
p("M02", "Merge: stops exactly when all sources have stopped and were drained",
  "A merged receiver keeps working when some of its sources stop, delivers everything the remaining and the stopped sources had produced, and stops exactly when all sources have stopped and every message was delivered.",
  ["schedules", "histories"], "all orders of source stops and messages", "One run stops the sources in one order.", ["_merge.py"], MM, MO)
p("M03", "Merge: stop() releases the consumer and leaves no tasks behind",
  "Stopping a merged receiver ends it: an operation waiting on it and all later ones end with the normal stopped outcome (never a cancellation), all its background tasks have finished when stop() returns, and it takes no further messages from its sources. When all sources stop, or the merged receiver is dropped, none of its background tasks survives either.",
  ["schedules", "fault_sequences"], "stop at every point, with and without waiting consumers, drop at every point", "No test calls stop() or drops a merger.", ["_merge.py"], MM, MO)
p("M04", "Merge: an error in one source surfaces once and harms no other source",
  "If receiving from one source fails with an error other than a stop, that error is raised once to the consumer of the merged receiver, and the messages of all other sources, and the later messages of that source, are still delivered exactly once.",
  ["schedules", "fault_sequences"], "all positions of source errors relative to other sources' messages", "No test has a failing source.", ["_merge.py"], MM, MO)
p("M05", "Merge: the consumer never waits while some source has a message",
  "Whenever the event loop comes to rest, no operation on a merged receiver is left waiting while one of its sources has an undelivered message, or once all sources have stopped or it was stopped. A source that always has messages does not keep another source's messages from coming out.",
  ["schedules", "histories"], "all arrival patterns, any number of sources", "Not tested.", ["_merge.py"], MM, MO)

SM = [("task per receiver, batches of done tasks", "_select.py:select"), ("Selected consumes at once", "_select.py:Selected.__init__"), ("handled flag", "_select.py:selected_from"), ("cleanup of pending tasks", "_select.py:_stop_pending_tasks")]
SO = ["select() iteration", "Selected.message/exception/was_stopped", "selected_from()", "tasks of the event loop"]
p("S01", "Select: each message is reported once, for the right receiver, none lost",
  "Iterating over a select reports every message of every selected receiver exactly once, attributed to the receiver it came from and in that receiver's order, and nothing else. Messages not yet reported when the iteration ends, by a break, an exception, a cancellation or an unhandled selection, are not lost: they are still received afterwards from their receivers, directly or by a new select over the same receivers started right away.",
  ["schedules", "histories", "fault_sequences"], "all arrival interleavings, any number of receivers, every way and moment of leaving the loop and re-entering it", "Tests use events (no payload, no loss detectable) on one fixed timeline.", ["_select.py"], SM, SO)
p("S02", "Select: a stopped receiver is reported once and the loop ends with the last",
  "Each selected receiver that stops is reported as stopped exactly once, after its pending messages, and is not selected again, while the others continue; the iteration ends exactly when all receivers have been reported stopped. A receiver that has not stopped is never reported as stopped.",
  ["schedules", "histories"], "all orders of stops and messages over all receiver kinds", "One timeline with three events.", ["_select.py", "event.py", "file_watcher.py"], SM, SO)
p("S03", "Select: unhandled selections are detected, handled ones never are",
  "If the body of a select iteration did not match the selection against the receiver it came from, the iteration fails with an unhandled-selection error carrying that selection; otherwise it never does. Matching answers true exactly for the receiver selected.",
  ["histories", "programs"], "all handling patterns over all selections", "One scenario.", ["_select.py"], SM, SO)
p("S04", "Select: leaving the loop in any way leaves no background tasks",
  "When a select iteration ends normally, by break, by an exception in the body, by closing it, by cancelling the consumer or by an unhandled selection, all tasks it started terminate once the event loop has run, and the receivers remain usable.",
  ["schedules", "fault_sequences"], "every way and moment of leaving the loop", "Two scenarios with events.", ["_select.py"], SM, SO)
p("S05", "Select: a ready receiver is always selected within a bounded number of steps",
  "Whenever the event loop comes to rest, a select iteration is not left waiting while one of its receivers has a message or an unreported stop, and a receiver that stays ready is selected after only boundedly many selections of others, even if the others are always ready.",
  ["schedules", "histories"], "all arrival patterns including permanently ready receivers, any number of receivers", "No test keeps receivers permanently ready.", ["_select.py"], SM, SO)
p("S06", "Select: receiver errors are reported on the selection or end the loop cleanly",
  "An error raised while consuming from a receiver is reported as the exception of the selection of that receiver, is re-raised when its message is accessed, and does not end the iteration or affect other receivers. An error raised while waiting for a receiver ends the iteration with a select error caused by it; no other error comes out of the iteration.",
  ["fault_sequences", "histories"], "errors at every position among messages of several receivers", "Only the container class is unit-tested.", ["_select.py"], SM, SO)

p("E01", "Event: a set is delivered exactly once, sets before consumption coalesce",
  "An event receiver is ready exactly when it has been set since it was last consumed; any number of sets before a consumption yield one message, a set after a consumption yields a new one, and none is missed however sets, waits and consumptions interleave. The set and stopped flags it shows always agree with this.",
  ["schedules", "histories"], "all interleavings of set, stop, wait, consume and cancel", "One linear scenario.", ["event.py"], [("flag + asyncio event", "event.py:Event.ready"), ("consume clears", "event.py:Event.consume")], ["Event.set()/stop()/is_set/is_stopped", "ready()/consume()/receive()"])

TM = [("wait loop and drift computation", "timer.py:Timer.ready"), ("policies", "timer.py:MissedTickPolicy.calculate_next_tick_time"), ("reset", "timer.py:Timer.reset"), ("stop", "timer.py:Timer.stop")]
TO = ["Timer.receive()/ready()/consume()/reset()/stop()/is_running", "event loop time"]
T = ["timer.py"]
p("T01", "Timer: never early, never late when awaited, and reports its exact drift",
  "A timer tick never fires before its scheduled time and, when someone is waiting and the loop is free, fires at that time; the delivered drift is exactly the time at which the tick fired minus the time it was scheduled for, hence never negative. This holds for any interval of at least one microsecond, any loop delays and a coarse clock that wakes sleepers early.",
  ["schedules", "inputs"], "all intervals, delays, busy periods and wake-up jitters", "A few fixed delays with one-second intervals.", T, TM, TO)
p("T02", "Timer: the trigger-all policy delivers every tick of the original schedule",
  "With the trigger-all-missed policy the n-th tick after a start is scheduled exactly n intervals after it: no tick is skipped or shifted whatever the delays, and missed ticks are delivered at once until caught up.",
  ["schedules", "inputs"], "all delay histories and intervals", "A handful of delays.", T, TM, TO)
p("T03", "Timer: the resync policy keeps the original grid and skips missed ticks",
  "With the skip-and-resync policy every scheduled tick lies a whole number of intervals after the start, and after a tick fires the next one is scheduled at the first such time strictly after the firing, so missed ticks are skipped without bursts and the timer never drifts.",
  ["schedules", "inputs"], "all delay histories and intervals", "Policy arithmetic is property-tested; the timer only on a few delays.", T, TM, TO)
p("T04", "Timer: the drift policy restarts from late ticks beyond the tolerance",
  "With the skip-and-drift policy a tick delayed by more than the tolerance schedules the next one a full interval after it fired, and a tick delayed by at most the tolerance schedules the next one a full interval after it was due.",
  ["schedules", "inputs", "configurations"], "all delay histories, intervals and tolerances, including delays equal to the tolerance", "Policy arithmetic is property-tested; the timer only on a few delays.", T, TM, TO)
p("T05", "Timer: start, delay, reset and stop take effect exactly when called",
  "A started timer's first tick is due one interval after the start plus the start delay, a timer that is not auto-started starts when first awaited, and a reset restarts the schedule from the moment of the reset for waiting and future operations alike, discarding an unconsumed tick and also restarting a stopped timer. After a stop no new tick fires and operations report the timer stopped until a reset, except that a tick that had already fired is still delivered.",
  ["schedules", "histories"], "all sequences of start, reset, stop, wait and time passing", "Each call tested once from an idle timer; reset while waiting only once, stop while waiting never.", T, TM, TO)

p("T06", "Timer: a custom missed-tick policy decides the schedule",
  "For every tick that fires, a user-defined missed-tick policy is asked exactly once, with the timer's interval, the time the tick was scheduled for and the time it fired, all exact integers of microseconds, and its answer is when the next tick is due.",
  ["schedules", "inputs", "programs"], "all policies and delay histories", "Only the arithmetic of one custom policy is shown in an example.", T, TM, TO)

FM = [("change set drained one by one", "file_watcher.py:FileWatcher.consume"), ("watch generator", "file_watcher.py:FileWatcher.ready"), ("event filter", "file_watcher.py:FileWatcher._filter_events")]
FO = ["FileWatcher.receive()/ready()/consume()", "changes reported by the watch backend"]
F = ["file_watcher.py"]
p("F01", "File watcher: each selected change is delivered once, with type and path",
  "Every change of a selected type that the watch backend reports is delivered as exactly one event with the matching type and path, changes of one report before those of a later report, and changes of other types are never delivered.",
  ["histories", "inputs", "configurations"], "all batches of changes, all event-type selections, all consumption interleavings", "Tests use one-change batches, or the filter alone.", F, FM, FO)
p("F02", "File watcher: cancelled or overlapping waits do not break the watcher",
  "Cancelling a wait on a file watcher, or having several waits outstanding, as happens when a select loop is left and re-entered, neither stops the watcher nor makes an operation fail: changes reported afterwards are still delivered.",
  ["schedules", "fault_sequences"], "all cancellation points and overlaps", "No test waits on a watcher twice.", F, FM, FO)

(pathlib.Path(__file__).parent.parent / "properties.jsonl").write_text("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
print(len(P), max(len(x["title"]) for x in P))
