#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it is easy to edit and review)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

R, L, D, U = "src/reactor.rs", "src/lib.rs", "src/driver.rs", "src/reactor/unix.rs"

prop("C01", "A task waiting for I/O is always woken when its handle becomes ready",
 "If a task waits for a handle to become readable or writable (by a readiness future, a poll method or an I/O operation) and the handle is or becomes ready in that direction, the waker of the task's most recent poll is woken without any further event being needed, and polling again completes the wait after at most a few such wake-ups while the handle stays ready. This holds however the registration, the OS event, waits on other handles, and the threads that drive I/O interleave, whether or not any thread is inside block_on.",
 ["schedules", "histories"], "all interleavings of tasks registering interest, events arriving, and threads driving the reactor; all orders of the events",
 "The tests run one schedule each, almost always with the waiter parked long before the event; a wakeup lost in a window between registration and delivery shows up only in a rare interleaving.",
 [R, D, U], [("re-arm the one-shot interest when the first waiter registers; collect and wake wakers on delivery", R), ("fallback thread and block_on share the right to poll", D)],
 [("per-direction wakers", "tasks to wake at the next event", R), ("per-direction tick", "last polling round that delivered an event", R)],
 ["waker calls", "futures completing"])

prop("C02", "Readiness is never reported from a stale or foreign event",
 "A readiness future or poll method reports ready only if, after that wait began (for the poll methods: at the first pending poll of that direction since they last reported it ready), the OS reported that same direction of that same handle as ready. Events for the other direction, events delivered or collected before the wait began, and events of another handle (including an already closed handle whose internal slot or descriptor number has been reused) never complete it.",
 ["schedules", "histories"], "all interleavings of delivery with dropping, creating and re-polling handles; all histories of waits and events up to a depth",
 "Tests never hold an event in flight while a handle is dropped and its slot reused, nor start a second wait while the first one's event is being delivered.",
 [R], [("round ticker compared with the ticks remembered when the wait began", R), ("separate state per direction", R)],
 [("ticker", "number of the current polling round", R), ("ticks", "rounds whose events a wait must ignore", R)],
 ["result of readable()/writable()/poll_readable()/poll_writable()"])

prop("C03", "Waits on one handle are independent of each other",
 "Any number of tasks may wait on the same handle in either or both directions: an event in one direction wakes every readiness future waiting for that direction, and keeps every wait in the other direction armed so that its own event still wakes it. Completing, cancelling or dropping one wait never delays, cancels or completes another.",
 ["schedules", "histories"], "all histories of starting, polling, cancelling and completing waits (several futures per direction plus the poll methods) and of events, and their interleavings with delivery",
 "The one test with two directions uses a single history; no test cancels a wait while others are pending or has several waiters per direction.",
 [R], [("re-registering the remaining interest after a partial delivery", R), ("slab of wakers with one slot per future", R)],
 [], ["which wakers are called", "which futures complete"])

prop("C04", "The latest waker is woken and wakers are released",
 "When a readiness wait or a timer is polled again with a different waker, the waker of the latest poll is the one that is woken, and a poll-method waiter displaced by another task is itself woken so that it can try again. Once a readiness future, a timer or a handle has been dropped, its waker is no longer called for later events or deadlines, and the library stops holding on to it (for timers, once the reactor has run again).",
 ["schedules", "histories"], "all histories of polls with different wakers, drops and events, and drops racing with delivery",
 "No test counts waker references or polls one wait from two tasks with distinguishable wakers, apart from one timer history.",
 [R, L], [("slot removal on drop", R), ("timer re-registration when the waker changes", L), ("waker replacement in the poll methods", R)],
 [], ["waker calls", "waker reference counts"])

prop("C05", "Timers never fire early and report the instant they were set for",
 "A timer (as a future or a stream) is never ready before its deadline according to the monotonic clock at the time of the poll, and the instant it returns is exactly the deadline that was set. A timer that was created or set so that it never fires is never ready.",
 ["inputs", "histories", "schedules"], "all timer constructors and setters, durations including zero, past instants and overflow, polled at every relation of clock and deadline",
 "Tests check a single one-second sleep with a lower bound; they cannot place the clock exactly one nanosecond before, at, or after the deadline.",
 [L, R], [("comparison of the clock with the deadline on every poll", L), ("splitting ready from pending timers", R)],
 [], ["value and time of Timer's Ready"])

prop("C06", "Every pending timer wakes its task when the deadline arrives",
 "If a task has polled a timer and received pending, then once the deadline (as last set) arrives the waker of the latest poll is woken without any further action: promptly, that is at the deadline when the reactor is idle and within the fallback thread's documented back-off (tens of milliseconds) otherwise. This holds for any number of timers, with equal or different deadlines, created, reset and dropped from any threads, including more timer operations than fit into the internal queue.",
 ["schedules", "histories"], "all interleavings of threads inserting, resetting and removing timers with the reactor computing its timeout, sleeping and firing",
 "Tests use one or two timers and wall-clock sleeps; the race of an insertion with the reactor going to sleep, equal deadlines and a full operation queue are not reached.",
 [R, L, D], [("notification after inserting a timer", R), ("timeout computed from the earliest timer", R), ("draining the operation queue when it is full", R)],
 [("timers", "pending timers ordered by deadline and id", R), ("timer_ops", "bounded queue of insertions and removals", R)],
 ["waker calls and the clock when they happen"])

prop("C07", "Interval timers emit every tick, in order, without drift",
 "An interval timer with a given start and period, used as a stream, yields exactly start, start+period, start+2*period and so on, each not before its instant and none skipped or duplicated, however late or from whichever tasks it is polled. After yielding, it wakes the polling task again at the next instant; it ends (never fires again) only when the next instant is not representable.",
 ["inputs", "histories"], "all histories of polls, waits, late polls and task changes, for periods including zero and ones that overflow",
 "The only interval test takes two ticks with a 500 ms tolerance and never polls late.",
 [L], [("next deadline computed from the previous deadline", L)], [], ["sequence of instants yielded by Timer as a stream"])

prop("C08", "Timer setters replace the schedule and keep the waiting task",
 "After any sequence of set_after, set_at, set_interval and set_interval_at, a timer behaves exactly as the last setting says: set_after and set_at give exactly one event, the interval setters give periodic events, a superseded deadline neither completes the timer nor wakes its task, and a duration too large to represent means never. The task that last polled the timer while it was pending (also while it could not fire) is woken under the new schedule without polling again, and will_fire tells whether an event is still to come.",
 ["histories", "inputs"], "all sequences of constructor, setters, polls, clock advances and moves between tasks up to a depth, against a reference model",
 "Tests cover two fixed sequences; setting after a reset to never, after completion, or switching between one-shot and interval is not covered.",
 [L, R], [("deregister, update, re-register with the stored waker", L)], [("when, period, id and waker", "the timer's state machine", L)],
 ["Timer results, will_fire, waker calls"])

prop("C09", "block_on runs its future to completion and never misses a wakeup",
 "block_on polls its future, returns the value it produces, and does not poll it again after that. Whenever the future's waker is called, from any thread, from inside the poll itself, or from I/O and timer delivery on any thread, at any moment, the future is polled again afterwards, even if the calling thread was just about to sleep or to block on I/O.",
 ["schedules"], "all interleavings of wake calls with the steps of block_on (polling, trying the reactor, announcing that it blocks, blocking, yielding the reactor)",
 "The tests wake from another thread a second later, always when block_on is already asleep; the handshake windows are nanoseconds wide.",
 [D], [("notification token plus 'blocked on I/O' flag checked after announcing", D), ("the waker notifies the reactor when its thread is blocked in it", D)],
 [("io_blocked", "this thread is blocked on I/O", D), ("IO_POLLING", "this thread is polling I/O itself", D)],
 ["block_on returning", "number of polls"])

prop("C10", "Some thread always drives I/O and timers",
 "For any number of threads entering, running inside and leaving block_on, in any order, and any number of tasks that wait on other executors, an I/O event or an expired timer is delivered within the fallback thread's back-off (tens of milliseconds), even if every block_on thread is busy computing, asleep waiting for something else, or has just returned. No hand-over of the right to poll leaves a pending event or timer unattended.",
 ["schedules", "histories"], "all interleavings of block_on calls starting, blocking, finishing and handing over, with tasks outside block_on waiting for I/O and timers",
 "Tests run one block_on at a time and never let the driving thread leave while others wait.",
 [D, R], [("fallback thread with exponential back-off", D), ("unparking the fallback thread when block_on ends or stops hogging", D)],
 [("BLOCK_ON_COUNT", "number of active block_on calls", D)],
 ["delay between an event or deadline and the waker call"])

prop("C11", "block_on invocations do not disturb each other",
 "Nested block_on calls on one thread, consecutive calls on one thread, and concurrent calls on several threads each wait only for their own future: waking one invocation's future does not wake another's, a wake delivered to a finished invocation before it returned does not carry over to the next, and an inner invocation leaves the outer one's pending wake intact.",
 ["schedules", "histories"], "all short histories of nested and consecutive block_on calls with wakes placed at every position, and their interleavings with a waking thread",
 "Three tests fix one history each and detect a mix-up only by elapsed time.",
 [D], [("fresh parker and waker for a recursive call, cached one otherwise", D), ("leftover notification consumed on completion", D)],
 [], ["polls and wakes of each invocation"])

prop("C12", "A panicking waker or future does not harm anybody else",
 "If a task's waker panics when the library wakes it, all other tasks due in the same delivery are still woken, and I/O events and timers keep being delivered afterwards on every thread. If a future inside block_on panics, the panic reaches the caller and later uses of block_on, timers and I/O handles (on any thread) work as before.",
 ["fault_sequences", "histories"], "every choice of which wakers or polls panic among those involved, in every position, with timers and I/O mixed",
 "No test panics in a waker or inside block_on.",
 [R, D], [("catch_unwind around each wake", R), ("clean-up guards in block_on", D)], [], ["wakes of the other tasks", "later operations succeeding"])

prop("C13", "Handles are registered and deregistered exactly once",
 "Creating an asynchronous handle either registers it fully or fails and leaves nothing behind (and never disturbs an existing registration of the same descriptor). Dropping a handle deregisters it before the descriptor is closed, unwrapping deregisters it and returns the same open descriptor, which can then be registered again; this holds for every order of creating, waiting, dropping and unwrapping, also with descriptor numbers and internal slots being reused.",
 ["histories", "fault_sequences", "schedules"], "all histories of create, duplicate create, failing create, wait, unwrap, re-create and drop over a few descriptors, also racing with event delivery",
 "One test registers a socket twice; failures of registration, slot reuse and unwrap/re-register sequences are not tested.",
 [R, L, U], [("insert/remove of the source and the OS registration under one lock", R), ("drop order in the handle's destructor", L)],
 [("sources", "slab of registered sources", R)], ["epoll registrations", "open descriptors", "results"])

prop("C14", "I/O adapters retry exactly on WouldBlock and otherwise pass results through",
 "Every asynchronous read, write, peek, receive, send, accept and flush (including vectored, by-reference and closure based forms) performs the underlying operation on the handle with the caller's buffer and repeats it only after it reported WouldBlock and the handle's readiness in the matching direction was awaited; every other result, success of any length or any other error, is returned unchanged, exactly once. No data is consumed, duplicated or dropped by the adapter, also when the operation is cancelled while waiting.",
 ["fault_sequences", "inputs"], "all sequences of outcomes of the underlying operation (would-block, short count, zero, interrupted, other errors) up to a depth, for every adapter",
 "Tests only see successful full-size operations on an idle machine; many methods are only compiled by doc-tests.",
 [L], [("retry loops around the underlying operation", L), ("readiness wait in the matching direction", L)], [],
 ["sequence of underlying operations", "returned results and buffers"])

prop("C15", "Asynchronous operations never block the calling thread",
 "Handles made by the constructors, conversions, accept and connect are in non-blocking mode, and polling any future of the library, constructing, dropping or unwrapping handles never blocks the thread on the readiness of a descriptor; only block_on and the library's own thread wait. A handle adopted with the non-blocking constructor keeps the mode it had, adopting a handle changes no other flag of its descriptor, and unwrapping does not change the mode.",
 ["histories", "schedules"], "every constructor and operation of the API in every readiness state of the descriptor",
 "A blocking descriptor is visible only when the operation would have had to wait and another task needed the thread; tests run each task on its own thread.",
 [L, R], [("switching the descriptor to non-blocking mode", L), ("non-blocking socket creation in connect", L)], [], ["system calls made while polling"])

prop("C16", "connect resolves to the true outcome of the connection attempt",
 "Connecting a TCP or Unix stream succeeds only with a stream that is actually connected to the given address, and fails with the OS's error when the attempt fails, immediately or later; while the attempt is in progress it stays pending and does not block. This holds for every answer the OS may give to the attempt, in every order with other readiness events; on failure the descriptor is closed and nothing stays registered.",
 ["fault_sequences", "schedules"], "every answer of the OS to socket creation, connect, and the outcome query, immediate or deferred, and stale events of other handles in flight",
 "Loopback connects complete immediately, so the in-progress and late-failure paths are not exercised.",
 [L], [("writability wait followed by the error query", L), ("Unix peer address query after the wait", L)], [], ["result of connect, state of the returned stream"])

prop("C17", "Byte streams and datagrams arrive intact, in order, exactly once",
 "Data written to one end of a connected pair of asynchronous handles is read at the other end unchanged, in order, once (datagrams: with message boundaries), and both sides make progress to completion, for every pattern of partial reads and writes, full buffers and would-block results, with reader and writer tasks on any threads, using handles by value or shared by reference in both directions at once. Where several tasks receive, read or accept on one handle, every datagram, byte and connection goes to exactly one of them. Peeking does not consume; end of stream is reported after the last byte.",
 ["schedules", "inputs"], "all interleavings of reader and writer tasks with small buffers, and all short chunkings",
 "Tests send one small message or bulk zero bytes and do not compare contents across back-pressure.",
 [L, R], [("retry loops plus readiness waits in both directions", L)], [], ["bytes received versus bytes sent, completion"])

prop("C18", "An OS error while polling or arming interest hurts only its own request",
 "If the OS reports an error when interest in a handle is being armed, or when the reactor waits for or re-arms events, then the error is returned to the affected operation where there is one, no other task's wakeup or timer is lost, the delivering thread keeps working, and retrying the failed operation once the fault is gone behaves as if the error had not happened.",
 ["fault_sequences"], "every single failing OS call (and pairs of them) among those the library makes in a history of waits, events and timers",
 "Tests never see a failing epoll call.",
 [R, D], [("error paths of arming interest and of the polling round", R), ("fallback thread ignores errors of a round", D)], [], ["wakes and results of all tasks after an injected fault"])

prop("C19", "Concurrent first use initialises the library once",
 "If several threads use the library for the first time at the same moment (handles, timers or block_on in any mix), exactly one event queue and one helper thread come into being, no thread deadlocks or fails, and every one of these first operations behaves normally.",
 ["schedules"], "all interleavings of two or three first uses with the helper thread starting up",
 "Each test process initialises the library once, from one thread.",
 [R, D], [("lazily initialised global reactor and helper thread", R), ("initialisation of the helper thread", D)], [], ["threads and epoll instances created; completion of first operations"])

prop("C20", "Wakers may use the library while they are being woken or released",
 "A waker called by the library when it delivers events or timers, or when a poll-method wait of another task replaces its own, may itself create, poll, reset and drop timers, create, poll and drop handles and readiness futures, and wake other tasks, without deadlock, panic or loss of other wakeups. It may do so with the very handle it was waiting for. The same holds for a waker that the library releases (because its wait was cancelled, has completed, or continues with another waker): it may be the last reference to its task, whose other timers, handles and readiness futures, also of the same handle, are dropped with it.",
 ["histories", "schedules"], "every library operation performed from inside a waker, for wakers of I/O and of timers, on the fallback thread, in block_on, and in the task that replaces a waiter",
 "Test wakers only unpark a thread.",
 [R], [("wakers are collected first and called after locks are released", R)], [], ["completion of the operation inside the waker"])

prop("C21", "An idle program does not spin",
 "When no handle that is waited for is ready and no timer is due, all threads of the library and all block_on calls become and stay blocked after a bounded number of steps: readiness that nobody waits for any more, dropped timers, cancelled waits and past notifications do not keep them running. The only activity allowed is the fallback thread's bounded back-off, and sleeping until the next timer.",
 ["histories", "schedules"], "all short histories of waits, cancellations, events, timers and block_on calls; after each the number of steps to quiescence is bounded",
 "A busy loop is invisible to tests that only check results.",
 [R, D], [("one-shot registrations with no interest by default", R), ("timeout from the next timer", R), ("back-off then blocking on the lock", D)], [], ["number of polling rounds until all threads block"])

prop("C22", "I/O load does not starve timers, nor timers I/O",
 "While some handle is continuously ready and its task keeps polling it, timers that become due still wake their tasks within a bounded number of polling rounds, and while timers keep coming due without pause, I/O events are still delivered within a bounded number of rounds. Tasks that are woken on several handles in one round are all woken in that round.",
 ["schedules", "histories"], "all interleavings of a permanently ready handle, a stream of due timers and the waits under test, on the fallback thread and in block_on",
 "Tests never combine a permanently ready source with a timer.",
 [R, D], [("timers processed on every round before polling", R), ("events polled even when timers are due", R)], [], ["number of polling rounds between becoming due and being woken"])

prop("C23", "Owned readiness futures keep their handle alive and behave like borrowed ones",
 "A readiness future that owns a shared handle completes under exactly the same conditions as the borrowed form, keeps the handle registered and its descriptor open for as long as it exists even if every other owner is dropped, and releases the handle when dropped or when it is the last owner.",
 ["histories", "schedules"], "all histories of creating, polling and dropping owned and borrowed waits and the handle's other owners, interleaved with events",
 "No test uses the owned futures.",
 [R, L], [("future generic over the way it holds the handle", R)], [], ["completion, descriptor state, registrations"])

prop("C24", "The exported reactor descriptor signals pending events",
 "The descriptor returned for integration with other event loops stays the same for the life of the process, refers to the event queue in which the library registers handles, and becomes readable when a handle that is waited for becomes ready while no thread of the library is collecting events.",
 ["histories"], "all short histories of waits, events and cancellations, observed while the library's threads are held off",
 "The doc-test only obtains the descriptor.",
 ["src/os/unix.rs", R], [("descriptor of the poller", "src/os/unix.rs")], [], ["poll(2) on the descriptor, its registrations"])

prop("C25", "kqueue filters and Windows waitables follow the same readiness contract",
 "On kqueue platforms a filter for a signal or a child process, and on Windows a waitable handle, becomes ready exactly when its event has occurred, wakes all waiting tasks, and is deregistered when dropped.",
 ["schedules", "histories"], "all interleavings of waits and events on those platforms",
 "No test on this platform compiles that code.",
 ["src/os/kqueue.rs", "src/reactor/kqueue.rs", "src/os/windows.rs", "src/reactor/windows.rs"], [("platform specific registrations", "src/reactor/kqueue.rs")], [], ["not observable on Linux"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
