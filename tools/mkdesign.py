#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design.md, the properties, the scenarios and (if present) the evidence and results."""
import json, os, re, glob, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
src = open(f"{HERE}/mc/src/props.rs").read()
SC = re.findall(r's\("(\w+)", \w+::\w+, (\d+), (\d+), (\d+), "([^"]*)"\)', src)
PR = {a: re.findall(r'"(\w+)"', b) + re.findall(r'"(\w+)"', c) for a, b, c in re.findall(r'Prop \{ id: "(C\d+)", scens: &\[([^\]]*)\], deep: &\[([^\]]*)\]', src)}
HOW = {
"C01": "Alphabet: start a wait (readiness future, poll method, owned), poll again with the same or another waker, cancel, make the handle readable or writable, use the readiness up, hang up, drop and recreate the handle, let the reactor run; all histories up to the depth of each scenario, and on top all interleavings with the helper thread (and with threads in block_on, io_driven, conc_drive, conc_three) up to the bound. Oracle: whenever everything has settled, a pending wait whose descriptor is ready by poll(2) must have been woken since its last poll, and re-polling must complete it within four wakes while it stays ready. Tests sample one order per feature; the lost wake-ups live in orders of register / event / re-arm.",
"C02": "The same histories. Oracle: whenever a wait reports ready, the epoll set must have reported that direction of that descriptor's present registration after the wait began (sequence numbers kept by the run-time at epoll_wait, by registration, not by key). Histories with stale ticks, slots and descriptor numbers reused with events in flight (conc_reuse), and removal racing with creation (conc_remove).",
"C03": "Histories and interleavings with two or three waits on one handle in all combinations of direction and kind; oracle of C01 applied to each wait after every cancellation, completion, consumption and event of the others.",
"C04": "Waits and timers re-polled with changing wakers: only the latest waker may be needed; displaced poll-method waiters must be woken; after dropping, no further wake (beyond a delivery in flight) and, after the reactor ran, no reference to the waker (counting raw wakers). leak_timers and timer_full add repetition and overflow of the timer queue.",
"C05": "All timer operation histories up to the depth (create, poll, set, let time pass to one nanosecond before, at and after the deadline) against a reference model of a timer; time deviations at any clock read in the race scenarios. Oracle: ready iff the model says so at some instant between the call's begin and end; returned instant equal to the model's deadline.",
"C06": "timer_race*: two threads start timers while the helper computes its time-out and goes to sleep: all interleavings within the bound; virtual time makes 'at the deadline' exact when the reactor is idle, back-off bound otherwise (timer_block_on_*). timer_full: more than 1000 operations with the queue full.",
"C07": "Interval histories polled early, on time, late, by changing tasks, against start + k*period; in block_on and by two tasks at once (interval_two*).",
"C08": "All sequences of setters and polls up to the depth against the reference model, including never, past and overflowing settings, intervals, and will_fire after each step; the wake under the new schedule without a poll is part of the model.",
"C09": "Every interleaving (within the bound) of a wake with poll, token check, reactor try-lock, announcement, blocking in epoll, hand-over, and yield; with the helper holding the reactor (bo_*) and with the calling thread driving it (dr_*: a warm-up inside block_on makes the helper leave the reactor). Wakers: other threads, the future itself, reactor deliveries on the same and on other threads, threads that drove the reactor earlier (dr_after), nested calls. A missed wake-up is a deadlock or an absurd virtual time; polls after completion are counted.",
"C10": "Threads enter, drive, hog, compute, sleep and leave in all orders while tasks outside wait; every event and deadline must be delivered within 50 ms of virtual time; drive_active keeps the helper in its back-off by 60 ms of continuous activity first.",
"C11": "Nested, consecutive and concurrent calls with wakes at every position; poll counts of each future against the number of its own wakes; leftovers must not make the next call poll.",
"C12": "Every subset of the wakers due in one delivery panics, on the helper thread and inside block_on; futures that panic at every position (alone, nested, beside others); afterwards all other wakes must have happened and a full set of operations must work on every thread.",
"C13": "Histories of creating, refusing, waiting, unwrapping, dropping with reuse of descriptor numbers and slots and injected epoll_ctl failures, against a model of which descriptors are open and registered; a close of a registered descriptor, a double close, or a leaked descriptor fails. leak_handles repeats 12 histories and compares live heap blocks.",
"C14": "Each adapter on a scripted object that answers with every result (success of any length, would-block in two forms, errors) in every order with readiness events of either direction and cancellation; the object sees operation, buffer address and length, so calls, retries and results are compared exactly. adapt_real: every socket operation on real sockets with injected OS errors.",
"C15": "Every constructor and conversion from blocking and non-blocking originals: mode observed by fcntl; every operation polled while impossible: a blocking system call on the polling thread is counted by the run-time.",
"C16": "The OS's answers to connect(2), SO_ERROR and getpeername are scripted: every answer, in every order with readiness events; plus real loopback sockets. Success only if the peer address is there, error passed on unchanged, pending in between, descriptor closed and deregistered on failure.",
"C17": "Writer and reader tasks on two threads, all patterns of lengths and buffer sizes from small alphabets on sockets with minimal buffers, spurious would-block results injected, both directions at once, cancellation in the middle; the received bytes are compared with the sent ones and both sides must finish. Datagrams with boundaries, peeking. Two tasks that share one end: every datagram, byte, connection goes to exactly one.",
"C18": "An error of epoll_ctl or epoll_wait at every call at which it may happen (fault deviations), within histories of waits; the error must reach its request, everybody else must be woken, and the retry must work.",
"C19": "The first operations of two or three threads (handle, timer, block_on, exported descriptor) are the first of the process; all interleavings of the initialisation within the bound; epoll instances and threads are counted.",
"C20": "Two wakers, each doing one of 16 things with the library while it is being called by the helper or by a block_on thread; also beside a third thread; and a displaced poll-method waiter doing one of 19 things, with the same handle too. Deadlock and panic are detected by the run-time, and all other wakes must arrive.",
"C21": "18 situations with nothing to do and 0 to 2 threads in block_on; after settling, the system must be blocked for 100 s of virtual time except for the helper's back-off, counted in steps.",
"C22": "A task polls an always ready handle while timers come due, and the reverse; bounded rounds until the other is served; 1 to many handles ready in one round all woken in that round.",
"C23": "Histories with owned futures as owners of the handle (last or not), compared with the same model as the borrowed ones; registration and descriptor observed from outside; conc_owned: event, drop and other owners race.",
"C24": "The exported descriptor is the same before, during and after other uses and from several threads, is the set in which handles register, and polls readable when a waited-for handle becomes ready while the library's threads are held back by the scheduler.",
}
def props():
    o = []
    for p in P:
        i = p["id"]
        if i not in PR: continue
        o.append(f"**{i} {p['title']}.** {HOW[i]}  \nScenarios: {', '.join(PR[i])}.\n")
    return "\n".join(o)
def scens():
    ev = {}
    for f in sorted(glob.glob(f"{HERE}/evidence/C*.json")):
        e = json.load(open(f))
        if e.get("tier") != "quick": continue
        for s in e["coverage"]["scenarios"]: ev[s["name"]] = s
    o = ["| scenario | what | deviations (quick) | time / errors | executions | threads |", "|---|---|---|---|---|---|"]
    for n, t, f, tot, about in SC:
        s = ev.get(n)
        o.append(f"| {n} | {about} | {tot} | {t} / {f} | {s['executions'] if s else ''} | {s['threads'] if s else ''} |")
    return "\n".join(o)
def fixes():
    return "\n".join("* " + l[7:].strip() for l in open(f"{HERE}/known_findings.txt") if l.startswith("fixed:"))
def seeded():
    o = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
    res = json.load(open(f"{HERE}/tools/seeded_results.json")) if os.path.exists(f"{HERE}/tools/seeded_results.json") else {}
    for d in sorted(glob.glob(f"{HERE}/seeded/*/meta.json")):
        m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
        r = res.get(n, {})
        c = ", ".join(k for k, v in sorted(r.items()) if v == 1) or ("**missed**" if r else "?")
        o.append(f"| {n} | {m['property']} | {m['needs']} | {c} |")
    return "\n".join(o)
def extra(n):
    f = f"{HERE}/tools/{n}.md"
    return open(f).read().strip() if os.path.exists(f) else ""
t = open(f"{HERE}/tools/design.md").read()
for k, v in dict(PROPERTIES=props, SCENARIOS=scens, FIXES=fixes, SEEDED=seeded, EQUIVALENT=lambda: extra("equivalent"), REFACTORINGS=lambda: extra("refactorings")).items(): t = re.sub(rf"\b{k}\b", lambda m: v(), t, count=1)
open(f"{HERE}/DESIGN.md", "w").write(t)
