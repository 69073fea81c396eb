"""C11: parallel execution returns exactly what serial execution returns."""
import gc
import io
import os
import time

import numpy as np
from hypothesis import strategies as st

from pyEdgeEval.common.binary_label.calculate_metrics import calculate_metrics as calc_binary
from pyEdgeEval.common.multi_label.calculate_metrics import calculate_metrics as calc_multi
from pyEdgeEval.utils import progressbar as pb
from vlib.harness import Sub

RULE = ("task lists of 0-40 tasks with delays, as list or (iterable, length), 1-6 processes, chunk sizes 1-9, with and without bar, "
        "skip_first, order and initializer, some tasks raising; non-trivial: at least two processes (or a serial/iterator run) and three tasks")
ASSUMPTIONS = ["the operating system schedules the worker processes; schedules are varied by drawn delays"]
EXTRA = [0]
KINDS = ["boom", "boom", "value", "key", "stop", "index", "assert"]


class Boom(Exception):
    pass


# a StopIteration may arrive as the RuntimeError that generators make of it
ERRORS = {"boom": Boom, "value": ValueError, "key": KeyError, "stop": (StopIteration, RuntimeError), "index": IndexError, "assert": AssertionError}
RAISED = {k: e[0] if isinstance(e, tuple) else e for k, e in ERRORS.items()}


def init_extra(v):
    EXTRA[0] = v


def work(task, scale=1):
    fd = os.open(task["log"], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, b"%d\n" % task["i"])
    os.close(fd)
    if task["delay"]:
        time.sleep(task["delay"] / 1000)
    if task["fail"]:
        raise RAISED[task["fail"]]("task %d" % task["i"])
    return task["i"], task["v"] * scale + EXTRA[0], np.full(2, task["v"])


@st.composite
def tasks_case(draw):
    n = draw(st.one_of(st.integers(0, 8), st.integers(0, 40)))
    vals = [draw(st.integers(-5, 5)) for _ in range(n)]
    dl = draw(st.sampled_from([[0], [0], [0, 1, 4], [6, 0], [3, 2, 1, 0]]))
    delays = [dl[(i * 7 + v) % len(dl)] for i, v in enumerate(vals)]
    fail = sorted(set(draw(st.lists(st.integers(0, n - 1), max_size=2)))) if n and draw(st.sampled_from([False, False, False, True])) else []
    return {"vals": vals, "delays": delays, "fail": fail, "form": draw(st.sampled_from(["list", "tuple", "iter"])), "nproc": draw(st.integers(1, 6)),
            "chunk": draw(st.sampled_from([1, 1, 2, 3, 9])), "skip_first": draw(st.booleans()), "order": draw(st.sampled_from([True, True, False])),
            "no_bar": draw(st.booleans()), "init": draw(st.sampled_from([None, None, 7])), "error": draw(st.sampled_from(KINDS))}


def build(case, tmp):
    log = os.path.join(tmp, "log")
    tasks = [{"i": i, "v": v, "delay": case["delays"][i], "fail": i in case["fail"] and case["error"], "log": log} for i, v in enumerate(case["vals"])]
    form = case["form"]
    arg = list(tasks) if form == "list" else (tasks, len(tasks)) if form == "tuple" else (iter(tasks), len(tasks))
    return tasks, arg, log


def calls(log):
    return sorted(int(x) for x in open(log).read().split()) if os.path.exists(log) else []


def same(a, b):
    return a[0] == b[0] and a[1] == b[1] and np.array_equal(a[2], b[2])


def check_parallel(case, t):
    tasks, arg, log = build(case, t.tmp())
    kw = dict(nproc=case["nproc"], chunksize=case["chunk"], skip_first=case["skip_first"], keep_order=case["order"], no_bar=case["no_bar"], file=io.StringIO())
    extra = 0
    if case["init"] is not None:
        kw.update(initializer=init_extra, initargs=(case["init"],))
        extra = case["init"]
    n = len(tasks)
    if case["fail"]:
        try:
            t.raises(ERRORS[case["error"]], pb.track_parallel_progress, work, arg, **kw)
        finally:
            gc.collect()
    else:
        got = t.call(pb.track_parallel_progress, work, arg, **kw)
        want = [(i, x["v"] + extra, np.full(2, x["v"])) for i, x in enumerate(tasks)]
        t.check(isinstance(got, list) and len(got) == n, lambda: "%r results for %d tasks" % (len(got), n))
        if not case["order"]:
            got = sorted(got, key=lambda r: r[0])
        for i in range(n):
            t.check(same(got[i], want[i]), lambda: "result %d is %r, expected %r" % (i, got[i], want[i]))
        t.check(calls(log) == list(range(n)), lambda: "the function was called for %r" % calls(log))
    t.nontrivial(case["nproc"] >= 2 and n >= 3)
    t.label("raising", bool(case["fail"]))
    t.label("unordered", not case["order"])
    t.label("skip_first with more tasks than it skips", case["skip_first"] and n > case["nproc"] * case["chunk"])
    t.label("fewer tasks than processes", 0 < n < case["nproc"])
    t.label("no task", n == 0)


def check_serial(case, t):
    tasks, arg, log = build(case, t.tmp())
    n = len(tasks)
    EXTRA[0] = 0
    if case["fail"]:
        t.raises(ERRORS[case["error"]], pb.track_progress, work, arg, no_bar=case["no_bar"], file=io.StringIO())
        t.check(calls(log) == list(range(case["fail"][0] + 1)), "tasks after the failing one ran, or earlier ones did not")
    else:
        scale = case["chunk"]
        got = t.call(pb.track_progress, work, arg, no_bar=case["no_bar"], file=io.StringIO(), scale=scale)
        t.check(len(got) == n, lambda: "%d results for %d tasks" % (len(got), n))
        for i in range(n):
            t.check(same(got[i], (i, tasks[i]["v"] * scale, np.full(2, tasks[i]["v"]))), lambda: "result %d is %r" % (i, got[i]))
        t.check(calls(log) == list(range(n)), "the function was not called once per task")
    _tasks, arg, _ = build(case, t.tmp())
    seen = []

    def drain():
        for x in pb.track_iter_progress(arg, file=io.StringIO()):
            seen.append(x["i"])

    t.call(drain)
    t.check(seen == list(range(n)), lambda: "track_iter_progress yielded %r" % seen)
    t.nontrivial(n >= 3)
    t.label("raising", bool(case["fail"]))


def eval_single(sample):
    fd = os.open(sample["log"], os.O_WRONLY | os.O_APPEND | os.O_CREAT)
    os.write(fd, b"%d\n" % int(sample["name"]))
    os.close(fd)
    if sample["delay"]:
        time.sleep(sample["delay"] / 1000)
    if sample["fail"]:
        raise RAISED[sample["fail"]]("sample")
    c = np.array(sample["c"], float)
    return c, c + 2, c, c + sample["x"]


@st.composite
def metrics_case(draw):
    n = draw(st.integers(1, 14))
    k = draw(st.integers(1, 5))
    return {"c": [[draw(st.integers(0, 20)) for _ in range(k)] for _ in range(n)], "x": [draw(st.integers(0, 9)) for _ in range(n)],
            "delays": [draw(st.sampled_from([0, 0, 2, 5])) for _ in range(n)], "nproc": draw(st.integers(2, 6)),
            "fail": draw(st.sampled_from([None, None, None, 0, n - 1])), "fn": draw(st.sampled_from(["binary", "multi"])), "error": draw(st.sampled_from(KINDS))}


def check_metrics(case, t):
    fn = calc_binary if case["fn"] == "binary" else calc_multi
    n = len(case["c"])
    k = len(case["c"][0])

    def samples(tag):
        log = os.path.join(t.tmp(), tag)
        return [{"name": str(i), "c": case["c"][i], "x": case["x"][i], "delay": case["delays"][i], "fail": i == case["fail"] and case["error"], "log": log} for i in range(n)], log

    if case["fail"] is not None:
        for nproc in (1, case["nproc"]):
            t.raises(ERRORS[case["error"]], fn, eval_single, k, samples("f%d" % nproc)[0], nproc=nproc)
        gc.collect()
        t.label("raising")
        t.nontrivial(n >= 3)
        return
    s1, l1 = samples("serial")
    s2, l2 = samples("parallel")
    a = t.call(fn, eval_single, k, s1, nproc=1)
    b = t.call(fn, eval_single, k, s2, nproc=case["nproc"])
    t.check(calls(l1) == list(range(n)) and calls(l2) == list(range(n)), "the samples were not evaluated once each")
    for x, y, what in zip(a, b, ("sample", "threshold", "overall")):
        x = x if isinstance(x, list) else [x]
        y = y if isinstance(y, list) else [y]
        t.check(len(x) == len(y), "%s results: %d serial, %d parallel" % (what, len(x), len(y)))
        for i, (p, q) in enumerate(zip(x, y)):
            t.check(p == q, lambda: "%s result %d: serial %r, parallel %r" % (what, i, p, q))
    t.nontrivial(n >= 3)
    t.label("fewer samples than processes", n < case["nproc"])


SUBS = [Sub("parallel", tasks_case, check_parallel, 1200, 15000), Sub("serial", tasks_case, check_serial, 1500, 15000),
        Sub("calculate_metrics", metrics_case, check_metrics, 500, 6000)]
