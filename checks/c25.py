"""C25: saved result files hold exactly the computed metrics."""
import math
import os

import numpy as np
from hypothesis import strategies as st

from pyEdgeEval.common.binary_label import save_results
from pyEdgeEval.common.multi_label import save_category_results
from vlib import gens as g
from vlib import metricsref as mr
from vlib.harness import Sub

RULE = "0-6 sample rows, 0-12 threshold rows and overall values (any score, NaN, tiny values), fresh and existing directories; non-trivial: rows of different values were written"
ASSUMPTIONS = ["sample names do not end in blank-separated numbers"]
ROW = ["threshold", "recall", "precision", "f1"]
FILES = ["eval_bdry_img.txt", "eval_bdry_thr.txt", "eval_bdry.txt"]


def value():
    return st.one_of(st.integers(0, 10**9).map(lambda v: v / 10**9), st.floats(0, 1), st.sampled_from([0.0, 1.0, 0.9999995, 0.99999949, 5e-7, 4.9e-7, 1e-300, float("nan"), 1 / 3]))


@st.composite
def metrics(draw):
    name = st.one_of(st.sampled_from(["test/100007", "lindau/lindau_000000_000019", "2008_000002", "a", "aa", "b-c.d", "img (2)", "a 1 b"]), st.text("abcxyz019_-./é", min_size=1, max_size=40), st.integers(41, 150).map(lambda k: "city/" + "x" * (k - 8) + "_%02d" % (k % 100)))
    row = st.lists(value(), min_size=4, max_size=4)
    return {"samples": draw(st.lists(st.tuples(name, row), max_size=6)), "thresholds": draw(st.lists(row, max_size=12)),
            "overall": draw(st.one_of(st.none(), st.lists(value(), min_size=9, max_size=9), st.lists(value(), min_size=9, max_size=9)))}


@st.composite
def io_case(draw):
    return {"fn": draw(st.sampled_from(["binary", "multi"])), "category": draw(st.one_of(st.integers(1, 20), st.sampled_from([1, 9, 10, 99, 100, 999, 1000]))), "first": draw(metrics()),
            "second": draw(st.one_of(st.none(), metrics())), "depth": draw(st.integers(0, 3)), "exists": draw(st.booleans()), "type": draw(st.sampled_from(["float", "float64", "float32"])),
            "none": draw(st.booleans()), "other": draw(st.integers(1, 12))}


def check(case, t):
    conv = {"float": float, "float64": np.float64, "float32": np.float32}[case["type"]]
    root = os.path.join(t.tmp(), *["d%d" % i for i in range(case["depth"] + 1)])
    if case["exists"]:
        os.makedirs(root)

    def save(m, category):
        empty = None if case["none"] else []
        s = [dict(name=n, **{k: conv(v) for k, v in zip(ROW, r)}) for n, r in m["samples"]] or empty
        th = [{k: conv(v) for k, v in zip(ROW, r)} for r in m["thresholds"]] or empty
        o = {k: conv(v) for k, v in zip(mr.KEYS, m["overall"])} if m["overall"] is not None else (None if case["none"] else {})
        if case["fn"] == "binary":
            t.call(save_results, root=root, sample_metrics=s, threshold_metrics=th, overall_metric=o)
            return root
        t.call(save_category_results, root=root, category=category, sample_metrics=s, threshold_metrics=th, overall_metric=o)
        return os.path.join(root, "class_" + "%03d" % category)

    def same(text, v, what):
        x = float(text)
        v = float(conv(v))
        t.check(math.isnan(x) and math.isnan(v) or abs(x - v) <= 0.5e-6 + 1e-12, lambda: "%s: saved %s, computed %r" % (what, text, v))
        t.check(math.isnan(v) or len(text.partition(".")[2]) == 6, lambda: "%s: %s is not written with 6 decimals" % (what, text))

    def judge(d, m, before):
        want = {f for f, x in zip(FILES, (m["samples"], m["thresholds"], m["overall"])) if x}
        t.check(os.path.isdir(d), "%s was not created" % d)
        t.check(set(os.listdir(d)) == want | before, lambda: "%s holds %r, expected %r" % (d, sorted(os.listdir(d)), sorted(want | before)))
        lines = {f: open(os.path.join(d, f), encoding="utf-8").read().rstrip("\n").split("\n") for f in want}
        if m["samples"]:
            got = lines[FILES[0]]
            t.check(len(got) == len(m["samples"]), lambda: "%d sample rows for %d samples" % (len(got), len(m["samples"])))
            for line, (name, row) in zip(got, m["samples"]):
                parts = line.rstrip().rsplit(None, 4)
                t.check(len(parts) == 5 and parts[0] == name, lambda: "sample row %r is not of %r" % (line, name))
                for x, v, k in zip(parts[1:], row, ROW):
                    same(x, v, "%s of sample %s" % (k, name))
        if m["thresholds"]:
            got = lines[FILES[1]]
            t.check(len(got) == len(m["thresholds"]), lambda: "%d threshold rows for %d thresholds" % (len(got), len(m["thresholds"])))
            for i, (line, row) in enumerate(zip(got, m["thresholds"])):
                parts = line.split()
                t.check(len(parts) == 4, lambda: "threshold row %r" % line)
                for x, v, k in zip(parts, row, ROW):
                    same(x, v, "%s of threshold row %d" % (k, i))
        if m["overall"]:
            parts = " ".join(lines[FILES[2]]).split()
            t.check(len(parts) == 9, lambda: "the overall file holds %d values" % len(parts))
            for x, v, k in zip(parts, m["overall"], mr.KEYS):
                same(x, v, k)
        return want

    cat = case["category"]
    d = save(case["first"], cat)
    had = judge(d, case["first"], set())
    if case["fn"] == "multi":
        t.check(os.listdir(root) == [os.path.basename(d)], lambda: "the root holds %r" % sorted(os.listdir(root)))
        if case["other"] != cat:  # another category leaves this one alone
            keep = {f: open(os.path.join(d, f), "rb").read() for f in had}
            d2 = save(case["second"] or case["first"], case["other"])
            judge(d2, case["second"] or case["first"], set())
            t.check(d2 != d and keep == {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}, "saving another category changed the first one's files")
            t.label("two categories")
    if case["second"] is not None:
        judge(save(case["second"], cat), case["second"], had)
        t.label("replaced")
    m = case["first"]
    t.nontrivial(bool(len(m["samples"]) > 1 or len(m["thresholds"]) > 1 or m["overall"] and len(set(map(str, m["overall"]))) > 5))
    t.label("something empty", not (m["samples"] and m["thresholds"] and m["overall"]))


SUBS = [Sub("files", io_case, check, 6000, 100000), Sub("replaced", lambda: g.replaced(io_case), g.check_replaced(check), 300, 4000)]
