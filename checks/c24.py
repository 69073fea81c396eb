"""C24: multi-category summaries are the mean of the per-category results."""
import math
import os

import numpy as np
from hypothesis import strategies as st

from vlib import gens as g
from vlib import metricsref as mr
from vlib import ref
from vlib import worlds as w
from vlib.harness import Sub

RULE = ("summaries: every multi-label evaluator class with chosen per-category results (scores 0-1, NaN, extreme values) for 1-20 categories in any order; "
        "trees: real evaluations of several categories; non-trivial: at least two categories with different results")
ASSUMPTIONS = ["rounded values may differ by one unit of the last digit where the exact value is within 1e-9 of a rounding boundary"]
COLS = ["ODS_recall", "ODS_precision", "ODS_f1"]


@st.composite
def summary_case(draw):
    kind = draw(st.sampled_from(w.KINDS))
    n = w.NCLASS[kind]
    spec = draw(st.sampled_from(["list", "list", "list", "int", "none"]))
    if spec == "none":
        cats = list(range(1, n + 1))
    else:
        cats = draw(st.lists(st.integers(1, n), min_size=1, max_size=1 if spec == "int" else draw(st.sampled_from([3, n])), unique=True))
    val = st.one_of(st.integers(0, 10**7).map(lambda v: v / 10**7), st.sampled_from([0.0, 1.0, 0.5, 1 / 3, 1e-7]))
    if draw(st.sampled_from([False, False, True])):
        val = st.one_of(val, val, st.just(float("nan")))
    return {"kind": kind, "spec": spec, "cats": cats, "metrics": [[draw(val) for _ in mr.KEYS] for _ in cats], "save": draw(st.sampled_from([True, True, True, False])),
            "thr": draw(w.thresholds()), "nproc": draw(st.integers(1, 9)), "np": draw(st.booleans()), "stale": draw(st.booleans())}


def tables_of(path):
    """(rows of the class table, rows of the summary table) as dicts by column."""
    text = open(path).read()
    mr.need(text.startswith("Per Class Results:\n") and "\nSummary:\n" in text, lambda: "results.txt is not laid out as documented: %r" % text[:200])
    out = []
    for part in text[len("Per Class Results:\n"):].split("\nSummary:\n"):
        rows = [[c.strip() for c in line.strip("|").split("|")] for line in part.split("\n") if line.startswith("|")]
        mr.need(len(rows) >= 1 and all(len(r) == len(rows[0]) for r in rows), lambda: "results.txt: a table cannot be read: %r" % part)
        out.append([dict(zip(rows[0], r)) for r in rows[1:]])
    mr.need(len(out) == 2, "results.txt does not hold two tables")
    return out


def rounded(text, value, digits):
    """Is text the value rounded to this many digits?"""
    try:
        x = float(text)
    except ValueError:
        return False
    if math.isnan(value):
        return math.isnan(x)
    if len(text.partition(".")[2]) > digits and "e" not in text:
        return False
    return abs(x - value) <= 0.5 * 10 ** -digits + 1e-9


def mean(v):
    v = [x for x in v if not math.isnan(x)]
    return math.fsum(v) / len(v) if v else float("nan")


def judge_summary(out, kind, cats, metrics):
    """metrics: per category, by key."""
    ov = mr.read_overall(os.path.join(out, "overall_eval_bdry.txt"))
    for k in mr.KEYS:
        want = mean([m[k] for m in metrics])
        mr.need(math.isnan(want) and math.isnan(ov[k]) or abs(ov[k] - want) <= 1.0e-6 + 1e-9 and abs(ov[k] - want) <= 0.5e-6 + 1e-9,
                lambda: "overall_eval_bdry.txt: %s is %r, the mean over the categories %r" % (k, ov[k], want))
    rows, summary = tables_of(os.path.join(out, "results.txt"))
    mr.need(len(rows) == len(cats) and all(w.is_class(kind, c, r["Class"]) for c, r in zip(cats, rows)), lambda: "results.txt lists the classes %r for the categories %r" % ([r["Class"] for r in rows], cats))
    for r, m in zip(rows, metrics):
        for k in COLS:
            mr.need(k in r and rounded(r[k], m[k] * 100, 3), lambda: "results.txt: %s of %s is %s, expected %r" % (k, r["Class"], r.get(k), m[k] * 100))
        k = "ODS_threshold"
        mr.need(k in r and rounded(r[k], m[k], 2), lambda: "results.txt: %s of %s is %s, expected %r" % (k, r["Class"], r.get(k), m[k]))
    mr.need(len(summary) == 1, "the summary has %d rows" % len(summary))
    for k in COLS + ["AUC"]:
        want = mean([m[k] for m in metrics]) * 100
        mr.need(k in summary[0] and rounded(summary[0][k], want, 3), lambda: "results.txt: the summary's %s is %s, expected %r" % (k, summary[0].get(k), want))


def build(kind, root, t):
    os.makedirs(os.path.join(root, "preds"))
    for d in ("gtEval/val", "gtFine/val"):
        os.makedirs(os.path.join(root, "data", d))
    return os.path.join(root, "data"), os.path.join(root, "preds")


def check(case, t):
    base = w.evaluator_class(case["kind"])
    d = t.tmp()
    results = {c: dict(zip(mr.KEYS, (np.float64(v) if case["np"] else v for v in m))) for c, m in zip(case["cats"], case["metrics"])}
    calls = []

    class Stub(base):
        def evaluate_category(self, category, thresholds, nproc, save_dir):
            calls.append((category, thresholds, nproc, save_dir))
            if save_dir:
                os.makedirs(save_dir, exist_ok=True)
            return dict(results[category])

    ev = Stub(*build(case["kind"], d, t))
    ev.set_sample_names(["x"])
    ev.set_eval_params()
    out = os.path.join(d, "out")
    if case["stale"] and case["save"]:
        os.makedirs(out)
        for f in ("results.txt", "overall_eval_bdry.txt"):
            with open(os.path.join(out, f), "w") as h:
                h.write("stale\n" * 500)
    cats = {"list": list(case["cats"]), "int": case["cats"][0], "none": None}[case["spec"]]
    before = sorted(os.listdir(d))
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")  # mean of nothing but NaN
        t.call(ev.evaluate, categories=cats, thresholds=case["thr"], nproc=case["nproc"], save_dir=out if case["save"] else None)
    t.check([c[0] for c in calls] == case["cats"], lambda: "evaluated the categories %r for %r" % ([c[0] for c in calls], cats))
    t.check(all(c[1:] == (case["thr"], case["nproc"], out if case["save"] else None) for c in calls), lambda: "evaluate_category was called with %r" % (calls,))
    metrics = [dict(zip(mr.KEYS, m)) for m in case["metrics"]]
    if case["save"]:
        try:
            judge_summary(out, case["kind"], case["cats"], metrics)
        except mr.Mismatch as e:
            t.fail(str(e))
        except OSError as e:
            t.fail("a result file is missing: %s" % e)
    else:
        t.check(sorted(os.listdir(d)) == before, "something was written without a save directory")
    t.nontrivial(len(metrics) > 1 and len({str(m) for m in metrics}) > 1)
    t.label("order not ascending", case["cats"] != sorted(case["cats"]))
    t.label("NaN", any(math.isnan(v) for m in case["metrics"] for v in m))
    t.label("all NaN", any(all(math.isnan(m[i]) for m in case["metrics"]) for i in range(9)))
    t.label("categories as " + case["spec"])


@st.composite
def real_case(draw):
    c = draw(w.tree(nmax=2))
    return {"tree": c, "thr": draw(w.thresholds(3, noise=c["noise"])), "kw": {"scale": draw(st.sampled_from([1.0, 0.5])), "max_dist": 0.004 if c["noise"] else 0.0257, "instance_sensitive": draw(st.booleans())},
            "single": draw(st.booleans())}


def check_real(case, t):
    c = case["tree"]
    d = t.tmp()
    world = w.World(c, d)
    world.write(decoys=False)
    world.write_split(c["names"])
    got = []

    class Spy(w.evaluator_class(c["kind"])):
        def evaluate_category(self, *a, **k):
            r = super().evaluate_category(*a, **k)
            got.append(dict(r))
            return r

    kw = {"split": c["split"], "thin": c["thin"]}
    for k in ("gt_dir", "pred_suffix"):
        if c[k]:
            kw[k] = c[k]
    ev = t.call(Spy, world.root, world.pred_root, **kw)
    t.call(ev.set_eval_params, **case["kw"])
    prot = w.protocol(c["kind"], case["kw"])
    if ref.tol_ambiguous(w.max_px(c, prot)):
        return
    thr = w.thr_values(case["thr"])
    cats = c["cats"][:1] if case["single"] else c["cats"]
    tables = {cat: world.table(c["names"], cat, prot, thr) for cat in cats}
    if any(w.ambiguous(x) for x in tables.values()):
        return
    out = os.path.join(d, "out")

    def go():
        del got[:]
        t.call(ev.evaluate, categories=list(cats), thresholds=case["thr"], nproc=1, save_dir=out)

    def judge(_):
        for cat in cats:
            mr.judge_dir(os.path.join(out, "class_%03d" % cat), thr, tables[cat])
        judge_summary(out, c["kind"], cats, got)
        want = {"class_%03d" % cat for cat in cats} | {"results.txt", "overall_eval_bdry.txt"}
        mr.need(set(os.listdir(out)) == want, lambda: "the output directory holds %r" % sorted(os.listdir(out)))

    w.settle(t, go, judge, [s for v in tables.values() for s in v])
    t.nontrivial(len(cats) > 1 and len({str(sorted(m.items())) for m in got}) > 1)
    t.label(c["kind"])


@st.composite
def reject_case(draw):
    return {"kind": draw(st.sampled_from(w.KINDS)), "cats": draw(st.sampled_from(["empty", "tuple", "str", "float", "set", "dict", "array"]))}


def check_reject(case, t):
    d = t.tmp()
    called = []

    class Stub(w.evaluator_class(case["kind"])):
        def evaluate_category(self, category, thresholds, nproc, save_dir):
            called.append(category)
            return dict.fromkeys(mr.KEYS, 0.5)

    ev = Stub(*build(case["kind"], d, t))
    ev.set_sample_names(["x"])
    ev.set_eval_params()
    cats = {"empty": [], "tuple": (1, 2), "str": "1", "float": 1.0, "set": {1}, "dict": {1: 2}, "array": np.array([1, 2])}[case["cats"]]
    os.makedirs(os.path.join(d, "out"))
    t.raises(Exception, ev.evaluate, cats, [0.5], 1, os.path.join(d, "out"))
    t.check(not called and not os.listdir(os.path.join(d, "out")), "something was evaluated or written for the categories %r" % (cats,))
    t.nontrivial()
    t.label(case["cats"])


SUBS = [Sub("summary", summary_case, check, 3000, 40000),
        Sub("trees", real_case, check_real, 800, 12000),
        Sub("replaced", lambda: g.replaced(real_case), g.check_replaced(check_real), 80, 1000),
        Sub("rejected", reject_case, check_reject, 80, 200)]
