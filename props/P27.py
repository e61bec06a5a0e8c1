"""Concurrent searches on one configured rebulk give what sequential searches give."""

import os
import sys
import threading
import time

import rebulk

from vh import bulk, util

RULE = (
    "random complete rebulks; one case in four: searched by 2-6 threads at once over different inputs and contexts, with "
    "a thread switch interval of 1-50 us and random yields injected in user callbacks; three in four: a search preempted "
    "at 1-6 random executed lines of the library, each time by a complete search of another input (and context) on the "
    "same rebulk, the schedule being exact; each result compared with the result of a fresh rebulk used alone; "
    "non-trivial: callbacks of at least two threads observed interleaved, or a preemption inside the library, distinct "
    "interleaving"
)
QUICK = 6000
THOROUGH = 150000


def preempted(rng, rec):
    seed = rng.getrandbits(40)
    s, c = bulk.text(rng, 14), rng.choice(bulk.CONTEXTS)
    others = [(bulk.text(rng, rng.choice([1, 3, 14, 14, 40])), rng.choice(bulk.CONTEXTS)) for _ in range(2)]
    rec.note("configuration", seed, (s, c), "preempted by", others)

    def search(r, s, c):
        return util.dumps(r.matches(s, dict(c) if c is not None else None))

    alone = [search(bulk.build(seed), *o) for o in [(s, c), *others]]
    root = os.path.dirname(os.path.realpath(rebulk.__file__)) + os.sep
    lines = 0
    points = {}
    nested = []
    r = bulk.build(seed)

    def tracer(frame, event, arg):
        nonlocal lines
        if not frame.f_code.co_filename.startswith(root):
            return None
        if event == "line":
            lines += 1
            visited.setdefault((frame.f_code.co_name, frame.f_lineno), []).append(lines)
            if lines in points:
                k = points[lines]
                where.append((frame.f_code.co_name, frame.f_lineno))
                nested.append((k, search(r, *others[k])))
        return tracer

    where = []
    visited = {}
    for attempt in (0, 1):
        # the first run only counts the lines
        lines = 0
        sys.settrace(tracer)
        try:
            ms = r.matches(s, dict(c) if c is not None else None)
        finally:
            sys.settrace(None)
        got = util.dumps(ms)
        rec.expect(got, alone[0], "matches of a preempted search", kind="preempted search")
        if not attempt:
            # any line of the library as likely as another, however often it runs
            places = sorted(visited)
            points = {rng.choice(visited[rng.choice(places)]): rng.randrange(2) for _ in range(rng.randint(1, 6))}
    rec.note("preempted at", where)
    for k, got in nested:
        rec.expect(got, alone[1 + k], "matches of a search run while another one is suspended", kind="preempting search")
    rec.count("lines_of_preempted_searches", lines)
    rec.count("preemptions", len(nested))
    if nested and (alone[0][0] or alone[0][1]):
        rec.state(seed, sorted(points.items()))
        for w in where:
            rec.count("preempted in " + w[0])


def case(rng, rec, i):
    if rng.random() < 0.75:
        return preempted(rng, rec)
    seed = rng.getrandbits(40)
    threads = rng.randint(2, 6)
    jobs = [[(bulk.text(rng, 18), rng.choice(bulk.CONTEXTS)) for _ in range(rng.randint(1, 4))] for _ in range(threads)]
    rec.note("configuration", seed, jobs)
    alone = {}
    for job in jobs:
        for s, c in job:
            k = (s, repr(c))
            if k not in alone:
                alone[k] = util.dumps(bulk.build(seed).matches(s, dict(c) if c is not None else None))
    trace = []
    pause = [rng.random() for _ in range(64)]

    def hook(kind):
        trace.append(threading.get_ident())
        if pause[len(trace) % 64] < 0.15:
            time.sleep(0)
        elif pause[len(trace) % 64] < 0.18:
            time.sleep(0.00002)

    r = bulk.build(seed, hook)
    barrier = threading.Barrier(threads)
    results = [[] for _ in range(threads)]
    errors = []

    def work(k):
        try:
            barrier.wait(20)
            for s, c in jobs[k]:
                results[k].append(util.dumps(r.matches(s, dict(c) if c is not None else None)))
        except BaseException as e:  # noqa: BLE001
            errors.append((k, e))

    old = sys.getswitchinterval()
    sys.setswitchinterval(rng.choice([0.000001, 0.00001, 0.00005]))
    try:
        ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(threads)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(25)
    finally:
        sys.setswitchinterval(old)
    rec.require(not errors, "a concurrent search failed", errors)
    for k, job in enumerate(jobs):
        for (s, c), got in zip(job, results[k]):
            rec.expect(got, alone[s, repr(c)], "matches of a concurrent search", kind="concurrent search")
        rec.require(len(results[k]) == len(job), "every concurrent search returned", k)
    # and the rebulk still works alone
    s, c = jobs[0][0]
    rec.expect(util.dumps(r.matches(s, dict(c) if c is not None else None)), alone[s, repr(c)], "matches after concurrent searches")
    order = {}
    for t in trace:
        order.setdefault(t, len(order))
    schedule = [order[t] for t in trace]
    switches = sum(a != b for a, b in zip(schedule, schedule[1:]))
    rec.count("callbacks", len(trace))
    rec.count("thread_switches_observed_in_callbacks", switches)
    if switches > len(order) - 1:
        rec.count("interleaved_executions")
        rec.state(seed, schedule)
        rec.sample((seed, schedule[:60]))
