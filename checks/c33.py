"""C33: timers and progress bars report the time and the counts that passed."""
import contextlib
import importlib
import io
import os
import re
import sys
import time

from hypothesis import strategies as st

import pyEdgeEval.utils  # noqa: F401 (loaded once, before the cases are forked)
from vlib.harness import Sub

RULE = ("histories of up to 30 operations on several timers and named check points under an artificial clock (steps from 0 to hours); progress bars and the three tracking functions over 0-60 tasks of drawn durations, "
        "bar widths 1-80 and terminals of 20-200 columns; non-trivial: a timer read at least twice with time in between, or a bar updated at least three times with time in between")
ASSUMPTIONS = ["the clock never goes backwards", "bars are not updated beyond their number of tasks", "counts shown on a bar may round by one unit, times by 0.5 s, the speed by 0.05"]
ISOLATE = True

ADV = [0.0, 0.015625, 0.25, 0.5, 1.0, 2.75, 59.0, 3600.0]


class Clock:
    def __init__(self):
        self.now = 0.0

    def install(self):
        base = {"time": 1700000000.0, "monotonic": 5000.0, "perf_counter": 100.0, "process_time": None}
        for name, off in base.items():
            if off is None:
                continue
            setattr(time, name, lambda off=off: self.now + off)
            setattr(time, name + "_ns", lambda off=off: int((self.now + off) * 1e9))


def fresh():
    for m in ("pyEdgeEval.utils.timer", "pyEdgeEval.utils.progressbar"):
        sys.modules.pop(m, None)
    return importlib.import_module("pyEdgeEval.utils.timer"), importlib.import_module("pyEdgeEval.utils.progressbar")


def near(a, b, tol=1e-5):
    return abs(a - b) <= tol


@st.composite
def timer_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 30))):
        k = draw(st.sampled_from(["adv", "adv", "adv", "start", "since", "last", "since", "last", "new", "stopped", "with", "check", "check", "running"]))
        if k == "adv":
            ops.append([k, draw(st.sampled_from(ADV))])
        elif k == "with":
            ops.append([k, draw(st.integers(0, 3)), draw(st.sampled_from(ADV)), draw(st.sampled_from([None, "t={:.1f}s", "{:.0f}"])), draw(st.sampled_from([None, None, 0.5])),
                        draw(st.booleans())])
        elif k == "check":
            ops.append([k, draw(st.sampled_from(["a", "b", "c", 3]))])
        elif k in ("new", "stopped"):
            ops.append([k])
        else:
            ops.append([k, draw(st.integers(0, 3))])
    return {"ops": ops}


def check_timer(case, t):
    clock = Clock()
    clock.install()
    tm, _ = fresh()
    timers = []  # [timer, running, start, last]
    points = {}
    reads = 0
    for op in case["ops"]:
        k = op[0]
        if k == "adv":
            clock.now += op[1]
            continue
        if k == "new":
            timers.append([t.call(tm.Timer), True, clock.now, clock.now])
            continue
        if k == "stopped":
            timers.append([t.call(tm.Timer, start=False), False, None, None])
            continue
        if k == "check":
            got = t.call(tm.check_time, op[1])
            want = clock.now - points[op[1]] if op[1] in points else 0
            t.check(near(got, want), lambda: "check_time(%r) is %r, expected %r" % (op[1], got, want))
            reads += want > 0
            points[op[1]] = clock.now
            continue
        if not timers:
            continue
        x = timers[op[1] % len(timers)]
        if k == "start":
            t.call(x[0].start)
            if not x[1]:
                x[1], x[2] = True, clock.now
            x[3] = clock.now
        elif k == "running":
            t.check(bool(x[0].is_running) == x[1], lambda: "is_running is %r" % x[0].is_running)
        elif k in ("since", "last"):
            fn = x[0].since_start if k == "since" else x[0].since_last_check
            if not x[1]:
                t.raises(tm.TimerError, fn)
                continue
            got = t.call(fn)
            want = clock.now - (x[2] if k == "since" else x[3])
            t.check(near(got, want), lambda: "%s is %r, expected %r" % (fn.__name__, got, want))
            x[3] = clock.now
            reads += want > 0
        elif k == "with":
            tmpl = op[3]
            out = io.StringIO()
            obj = tm.Timer(start=op[5], print_tmpl=tmpl) if tmpl else tm.Timer(start=op[5])
            clock.now += op[2]
            boom = False
            with contextlib.redirect_stdout(out):
                try:
                    with obj as o:
                        t.check(o is obj, "entering does not give the timer")
                        last = clock.now
                        clock.now += op[2]
                        if op[4] is not None:
                            got = t.call(o.since_start)
                            want = op[2] * (2 if op[5] else 1)
                            t.check(near(got, want), lambda: "since_start in a with block is %r, expected %r" % (got, want))
                            last = clock.now
                            clock.now += op[4]
                        if op[2] == 59.0:
                            raise KeyError("body")
                except KeyError:
                    boom = True
            t.check(boom == (op[2] == 59.0), "the exception of the body was lost")
            want = (tmpl or "{:.3f}").format(clock.now - last)
            t.check(out.getvalue() == want + "\n", lambda: "printed %r, expected %r" % (out.getvalue(), want))
            t.check(not obj.is_running, "the timer still runs after the block")
            t.raises(tm.TimerError, obj.since_start)
    t.nontrivial(reads >= 2)
    t.label("several timers", len(timers) > 1)
    t.label("several check points", len(points) > 1)


@st.composite
def bar_case(draw):
    total = draw(st.one_of(st.just(0), st.integers(1, 60), st.integers(1, 12), st.just(20000)))
    ups = []
    left = total if total else 40
    for _ in range(draw(st.integers(0, 14))):
        n = draw(st.sampled_from([1, 1, 1, 2, 5, left, 3000 if total == 20000 else 1]))
        if n < 1 or n > left:
            continue
        left -= n
        ups.append([n, draw(st.sampled_from(ADV + [2.0**-12, 0.125])), draw(st.booleans())])
    return {"total": total, "ups": ups, "width": draw(st.sampled_from([50, 50, 1, 2, 10, 80])), "cols": draw(st.sampled_from([80, 80, 20, 40, 60, 100, 200])),
            "late": draw(st.sampled_from([None, None, 2.0])), "bad": draw(st.sampled_from([None, None, 0, -1]))}


BAR = re.compile(r"\r\[([> ]*)\] (\d+)/(\d+), (\S+) task/s, elapsed: (-?\d+)s, ETA:\s*(-?\d+)s")
NOBAR = re.compile(r"completed: (\d+), elapsed: (\d+)s, (\S+) tasks/s")


def judge_bar(t, text, done, total, width, cols, elapsed):
    m = BAR.fullmatch(text.rstrip("\n"))
    t.check(m is not None, lambda: "the bar shows %r" % text)
    bar, a, b, fps, el, eta = m.groups()
    t.check(int(a) == done and int(b) == total, lambda: "the bar shows %s/%s, expected %d/%d" % (a, b, done, total))
    if elapsed > 0:
        want = done / elapsed
        t.check(fps != "inf" and abs(float(fps) - want) <= 0.051 + 1e-4 * want, lambda: "the bar shows %s task/s, expected %.3f" % (fps, want))
        eta_want = elapsed * (total - done) / done
        t.check(abs(int(eta) - eta_want) <= 0.51 + 1e-6 * eta_want, lambda: "the bar shows ETA %s s, expected %.2f" % (eta, eta_want))
    else:
        t.check(fps == "inf" and int(eta) == 0, lambda: "without time passing the bar shows %s task/s and ETA %s" % (fps, eta))
    t.check(abs(int(el) - elapsed) <= 0.51, lambda: "the bar shows %s s elapsed, expected %.2f" % (el, elapsed))
    n = len(bar)
    t.check(re.fullmatch(">* *", bar) is not None, lambda: "the bar is %r" % bar)
    t.check(2 <= n <= max(2, width), lambda: "the bar has %d cells, %d were asked for" % (n, width))
    t.check(n == 2 or len(text.strip("\r\n")) <= cols, lambda: "the bar's line is longer than the terminal: %r" % text)
    t.check(n == 2 or n <= cols * 0.6 + 1, lambda: "the bar has %d cells in a terminal of %d" % (n, cols))
    room = min(max(2, width), int(cols * 0.6), cols - (len(text.rstrip("\n")) - n))
    t.check(n >= room, lambda: "the bar has %d cells although %d fit" % (n, room))
    marks = bar.count(">")
    t.check(abs(marks - n * done / total) < 1 + 1e-9, lambda: "%d of %d cells are marked at %d/%d" % (marks, n, done, total))
    if done == total:
        t.check(marks == n, lambda: "a complete bar is %r" % bar)


def check_bar(case, t):
    os.environ["COLUMNS"] = str(case["cols"])
    os.environ["LINES"] = "24"
    clock = Clock()
    clock.install()
    _, pb = fresh()
    out = io.StringIO()
    total, width = case["total"], case["width"]
    if case["late"] is None:
        bar = t.call(pb.ProgressBar, total, width, file=out)
    else:
        bar = t.call(pb.ProgressBar, total, width, start=False, file=out)
        t.check(out.getvalue() == "", "a bar that was not started shows something")
        clock.now += case["late"]
        t.call(bar.start)
    first = out.getvalue()
    if total:
        t.check(re.fullmatch(r"\[ *\] 0/%d, elapsed: 0s, ETA:\s*" % total, first) is not None, lambda: "the bar starts as %r" % first)
    else:
        t.check(first == "completed: 0, elapsed: 0s", lambda: "the bar starts as %r" % first)
    t0 = clock.now
    done = 0
    for n, dt, kw in case["ups"]:
        clock.now += dt
        pos = len(out.getvalue())
        if case["bad"] is not None:
            t.raises((AssertionError, ValueError, OSError), bar.update, case["bad"])
            t.check(out.getvalue()[pos:] == "", "a rejected update shows something")
        if n == 1 and kw:
            t.call(bar.update)
        else:
            t.call(bar.update, num_tasks=n)
        done += n
        t.check(bar.completed == done, lambda: "%r tasks are completed, expected %d" % (bar.completed, done))
        text = out.getvalue()[pos:]
        el = clock.now - t0
        if total:
            judge_bar(t, text, done, total, width, case["cols"], el)
        else:
            m = NOBAR.fullmatch(text)
            t.check(m is not None, lambda: "the bar shows %r" % text)
            t.check(int(m.group(1)) == done and abs(int(m.group(2)) - el) <= 0.51, lambda: "the bar shows %r after %d tasks and %.2f s" % (text, done, el))
            t.check(m.group(3) == "inf" if el <= 0 else abs(float(m.group(3)) - done / el) <= 0.051 + 1e-4 * done / el, lambda: "the bar shows %r after %d tasks and %.2f s" % (text, done, el))
    t.nontrivial(len(case["ups"]) >= 3 and clock.now > t0)
    t.label("narrow terminal", case["cols"] <= 60)
    t.label("unknown total", not total)


@st.composite
def track_case(draw):
    return {"dts": draw(st.lists(st.sampled_from(ADV), max_size=12)), "fn": draw(st.sampled_from(["track", "iter", "iter", "track", "parallel"])), "form": draw(st.sampled_from(["list", "pair"])),
            "width": draw(st.sampled_from([50, 10])), "cols": draw(st.sampled_from([80, 120, 50])), "skip": draw(st.booleans())}


def square(x):
    return x * x


def check_track(case, t):
    os.environ["COLUMNS"] = str(case["cols"])
    clock = Clock()
    if case["fn"] != "parallel":
        clock.install()
    _, pb = fresh()
    out = io.StringIO()
    dts = case["dts"]
    n = len(dts)
    taken = []

    def source():
        for i in range(n):
            taken.append(i)
            yield i

    tasks = list(range(n)) if case["form"] == "list" else (source(), n)
    marks = []

    def step(i):
        clock.now += dts[i]
        marks.append(clock.now)
        return i * i

    if case["fn"] == "track":
        res = t.call(pb.track_progress, step, tasks, bar_width=case["width"], file=out)
    elif case["fn"] == "iter":
        res = []

        def drain():
            for i in pb.track_iter_progress(tasks, bar_width=case["width"], file=out):
                t.check(case["form"] == "list" or len(taken) == i + 1, lambda: "%d tasks were taken when task %d was handed out" % (len(taken), i))
                res.append(step(i))

        t.call(drain)
    else:
        skip = case["skip"] and n > 2
        res = t.call(pb.track_parallel_progress, square, tasks, 2, bar_width=case["width"], skip_first=skip, file=out)
    t.check(res == [i * i for i in range(n)], lambda: "results %r" % res)
    text = out.getvalue()
    t.check(text.endswith("\n") and text.count("\n") == 1, lambda: "the bar does not end its line: %r" % text[-20:])
    parts = text[:-1].split("\r")
    if case["fn"] == "parallel":
        k = n - 2 if skip else n
        counts = [tuple(map(int, re.search(r"\] (\d+)/(\d+)", p).groups())) for p in parts if n]
        if n:
            t.check(counts == [(i, k) for i in range(k + 1)], lambda: "the bar counted %r for %d tasks" % (counts, k))
    elif n:
        t.check(len(parts) == n + 1, lambda: "the bar was drawn %d times for %d tasks" % (len(parts) - 1, n))
        for i, p in enumerate(parts[1:]):
            judge_bar(t, "\r" + p, i + 1, n, case["width"], case["cols"], marks[i])
    else:
        t.check(text == "completed: 0, elapsed: 0s\n", lambda: "without tasks the bar shows %r" % text)
    t.nontrivial(n >= 3 and (case["fn"] == "parallel" or sum(dts) > 0))
    t.label(case["fn"])


SUBS = [Sub("timer", timer_case, check_timer, 2500, 60000), Sub("bar", bar_case, check_bar, 2500, 60000), Sub("track", track_case, check_track, 800, 16000)]
