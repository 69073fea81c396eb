"""C34: every log message reaches exactly the destinations of its logger, once and at its level."""
import contextlib
import io
import logging
import os
import re
import sys

from hypothesis import strategies as st

from pyEdgeEval.utils import logger as lg
from vlib.harness import Sub

RULE = ("histories of up to 14 operations (get_logger with nested and prefix-sharing names, files, modes and levels; get_root_logger; print_log to loggers, names, 'silent', None and wrong types) against a model of "
        "the logger hierarchy; non-trivial: a message was written and a message was dropped, or two loggers with handlers were involved")
ASSUMPTIONS = ["no other code adds handlers", "different loggers log to different files", "a logger with an initialised ancestor has no handlers of its own, as documented; messages also reach the handlers of ancestors, as in the logging module"]
ISOLATE = True

NAMES = ["a", "ab", "a.b", "a.b.c", "a.bc", "b", "abc.d", "pyEdgeEval", "pyEdgeEval.x", "pyEdgeEvalX", "A", "a_b"]
LEVELS = [10, 20, 20, 30, 40, 25]


@st.composite
def log_case(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    if draw(st.sampled_from([False] * 9 + [True])):
        names.append("")
    ops = []
    for i in range(draw(st.integers(1, 14))):
        k = draw(st.sampled_from(["get", "get", "log", "log", "log", "name", "name", "none", "silent", "root", "bad"]))
        n = draw(st.sampled_from(names))
        if k == "get":
            ops.append([k, n, draw(st.booleans()), draw(st.sampled_from([None] + LEVELS)), draw(st.sampled_from([None, "w", "a", "a"]))])
        elif k == "root":
            ops.append([k, draw(st.booleans()), draw(st.sampled_from([None] + LEVELS))])
        elif k == "bad":
            ops.append([k, draw(st.sampled_from([3, 1.5, ["a"], True]))])
        else:
            ops.append([k, n, draw(st.sampled_from([None] + LEVELS + [50])), "m%d %s" % (i, draw(st.sampled_from(["", "x: 1", "100%", "%s %d", "two\twords", "é"])))])
    return {"ops": ops, "old": draw(st.booleans())}


class Model:
    def __init__(self):
        self.init = {}  # name -> [level, file or None]

    @staticmethod
    def chain(name):
        """The logger itself and its ancestors, nearest first."""
        out = [name]
        while "." in name:
            name = name.rsplit(".", 1)[0]
            out.append(name)
        if name:
            out.append("")
        return out

    def get(self, name, level, file):
        """True when the logger is set up by this call."""
        if any(n in self.init for n in self.chain(name)):
            return False
        self.init[name] = [level, file]
        return True

    def targets(self, name, level):
        for n in self.chain(name):
            if n in self.init:
                effective = self.init[n][0]
                break
        else:
            return None
        if level < effective:
            return []
        return [n for n in self.chain(name) if n in self.init and level >= self.init[n][0]]


def check(case, t):
    d = t.tmp()
    err, out = io.StringIO(), io.StringIO()
    sys.stderr, old_err = err, sys.stderr
    model = Model()
    files = {}  # name -> expected lines
    want_err, want_out = [], []
    written = dropped = 0
    start = {}
    try:
        with contextlib.redirect_stdout(out):
            for op in case["ops"]:
                k = op[0]
                if k in ("get", "root"):
                    name = op[1] if k == "get" else "pyEdgeEval"
                    use_file, level = (op[2], op[3]) if k == "get" else (op[1], op[2])
                    mode = op[4] if k == "get" else None
                    path = os.path.join(d, "log_%s.txt" % name) if use_file else None
                    if path and name not in start:
                        start[name] = "old\n" if case["old"] else None
                        if case["old"]:
                            with open(path, "w") as f:
                                f.write("old\n")
                    kw = {}
                    if path:
                        kw["log_file"] = path
                    if level is not None:
                        kw["log_level"] = level
                    if mode is not None:
                        kw["file_mode"] = mode
                    lo = t.call(lg.get_logger, name, **kw) if k == "get" else t.call(lg.get_root_logger, **kw)
                    t.check(lo is logging.getLogger(name), lambda: "get_logger(%r) is %r" % (name, lo))
                    if model.get(name, 20 if level is None else level, path):
                        if path:
                            files[name] = ["old"] if case["old"] and mode == "a" else []
                elif k == "bad":
                    t.raises(TypeError, lg.print_log, "x", logger=op[1])
                else:
                    _, name, level, msg = op
                    kw = {} if level is None else {"level": level}
                    lv = 20 if level is None else level
                    if k == "none":
                        t.call(lg.print_log, msg, **kw)
                        want_out.append(msg)
                        continue
                    if k == "silent":
                        t.call(lg.print_log, msg, "silent", **kw)
                        continue
                    if k == "name":
                        t.call(lg.print_log, msg, logger=name, **kw)
                        model.get(name, 20, None)
                    else:
                        # a Logger object: only of loggers that were set up
                        if model.targets(name, lv) is None:
                            continue
                        t.call(lg.print_log, msg, logger=logging.getLogger(name), **kw)
                    dest = model.targets(name, lv)
                    line = [name or "root", logging.getLevelName(lv), msg]
                    for n in dest:
                        want_err.append(line)
                        if n in files:
                            files[n].append(line)
                    written += bool(dest)
                    dropped += not dest
    finally:
        sys.stderr = old_err
    for lo in [logging.getLogger()] + [logging.getLogger(n) for n in NAMES]:
        for h in lo.handlers:
            h.flush()

    def match(lines, want, what):
        t.check(len(lines) == len(want), lambda: "%s has %d lines, expected %d: %r" % (what, len(lines), len(want), lines))
        for a, b in zip(lines, want):
            if isinstance(b, str):
                t.check(a == b, lambda: "%s has %r, expected %r" % (what, a, b))
                continue
            m = re.match(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d{3} - (.*)$", a)
            t.check(m is not None and m.group(1) == " - ".join(b), lambda: "%s has %r, expected %r" % (what, a, b))

    match(err.getvalue().split("\n")[:-1], want_err, "stderr")
    t.check(out.getvalue() == "".join(m + "\n" for m in want_out), lambda: "stdout is %r, expected %r" % (out.getvalue(), want_out))
    for name in start:
        p = os.path.join(d, "log_%s.txt" % name)
        if name in files:
            t.check(os.path.exists(p), lambda: "no log file of %r" % name)
            with open(p, encoding="utf8") as f:
                match(f.read().split("\n")[:-1], files[name], "the log file of %r" % name)
        else:
            with_file = os.path.exists(p)
            t.check(with_file == (start[name] is not None), lambda: "a log file of %r, which was set up already" % name)
            if with_file:
                t.check(open(p).read() == "old\n", lambda: "the log file of %r changed" % name)
    t.nontrivial(bool(written and dropped) or (written and len(model.init) > 1))
    t.label("two loggers", len(model.init) > 1)
    t.label("file", bool(files))
    t.label("hierarchy", any("." in o[1] for o in case["ops"] if o[0] in ("get", "log", "name")))


SUBS = [Sub("history", log_case, check, 6000, 120000)]
