"""C26: PR-curve plots show the saved results of each algorithm."""
import contextlib
import io
import itertools
import math
import os
import re
import warnings

import numpy as np
from hypothesis import strategies as st

from pyEdgeEval.common.binary_label import visualize as bsds_plot
from pyEdgeEval.visualization import pr_curve as plot
from vlib import gens as g
from vlib.harness import Sub

RULE = ("1-5 algorithms with 1-20 saved points each (decreasing or arbitrary recall, repeated and tiny values), 9-value and 8-value results, both plotting "
        "functions; non-trivial: at least two algorithms with different numbers of points and distinct ODS F1")
ASSUMPTIONS = ["algorithms of equal ODS F1 may be listed in any order", "where several points share one precision, R50 may use any of them"]


@st.composite
def algorithm(draw, i):
    n = draw(st.one_of(st.integers(1, 20), st.sampled_from([1, 2, 99])))
    kind = draw(st.sampled_from(["detector", "random", "coarse", "tiny"]))
    if kind == "tiny":
        rec = [draw(st.sampled_from([0.0, 0.0005, 0.000999, 0.001, 0.002, 0.5])) for _ in range(n)]
    elif kind == "coarse":
        rec = [draw(st.integers(0, 10)) / 10 for _ in range(n)]
    else:
        r = np.random.default_rng(draw(st.integers(0, 10**6)))
        rec = [round(float(x), 6) for x in r.random(n)]
    if kind == "coarse":
        prec = [draw(st.integers(0, 10)) / 10 for _ in range(n)]
    else:
        r = np.random.default_rng(draw(st.integers(0, 10**6)))
        prec = [round(float(x) * draw(st.sampled_from([1.0, 1.0, 0.45])), 6) for x in r.random(n)]
    if kind == "detector":
        rec.sort(reverse=True)
        prec.sort()
    rows = [[round((k + 1) / (n + 1), 6), rec[k], prec[k], round(2 * rec[k] * prec[k] / (rec[k] + prec[k]), 6) if rec[k] + prec[k] else 0.0] for k in range(n)]
    size = draw(st.sampled_from([9, 9, 9, 8]))
    return {"name": draw(st.sampled_from(["HED", "RCF", "alg %d" % i, "BDCN (ours)", "_x", "a_b-c", "é"])) + (str(i) if draw(st.booleans()) else ""), "rows": rows,
            "overall": [draw(st.integers(0, 10**6)) / 10**6 for _ in range(size)]}


@st.composite
def plot_case(draw):
    n = draw(st.integers(1, 5))
    return {"algs": [draw(algorithm(i)) for i in range(n)], "fn": draw(st.sampled_from(["generic", "bsds", "bsds nohuman"])), "names": draw(st.booleans()), "colors": draw(st.booleans()),
            "save": draw(st.sampled_from([False, False, True]))}


def r50_bounds(rows):
    pts = [(p, r) for _t, r, p, _f in rows]
    if not pts:
        return None
    ps = sorted({p for p, _ in pts})
    x = max(ps[0], 0.5)
    if x > ps[-1]:
        return None
    out = []
    for pick in (min, max):
        v = {p: pick(r for q, r in pts if q == p) for p in ps}
        if x in v:
            out.append(v[x])
            continue
        a = max(p for p in ps if p < x)
        b = min(p for p in ps if p > x)
        w = (x - a) / (b - a)
        out.append(v[a] * (1 - w) + v[b] * w)
    return out


def assignment(cand, score=None):
    """One algorithm for each entry (with falling scores), or None."""
    for p in itertools.permutations(range(len(cand))):
        if all(i in c for i, c in zip(p, cand)) and (score is None or all(score[a] >= score[b] for a, b in zip(p, p[1:]))):
            return p
    return None


def check(case, t):
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgba

    d = t.tmp()
    algs = []
    for i, a in enumerate(case["algs"]):
        p1, p2 = os.path.join(d, "thr%d.txt" % i), os.path.join(d, "all%d.txt" % i)
        with open(p1, "w") as f:
            for row in a["rows"]:
                f.write("{:<10.6f} {:<10.6f} {:<10.6f} {:<10.6f}\n".format(*row))
        with open(p2, "w") as f:
            f.write(" ".join("{:<10.6f}".format(v) for v in a["overall"]))
        algs.append(plot.AlgorithmInfo("unused %d" % i if case["names"] else a["name"], p1, p2))
    names = [a["name"] for a in case["algs"]]
    kw = {}
    if case["names"]:
        kw["names"] = list(names)
    human = case["fn"] == "bsds"
    n = len(algs)
    palette = [[0.1 + 0.15 * i, 0.9 - 0.15 * i, 0.3, 1.0] for i in range(n)]
    if case["colors"]:
        kw["colors"] = palette + ([[0.0, 0.0, 0.0, 1.0]] if human else [])
    if case["fn"] != "generic":
        kw["plot_human"] = human
    if case["save"]:
        kw["save_path"] = os.path.join(d, "out.png")
    fn = plot.plot_pr_curve if case["fn"] == "generic" else bsds_plot.plot_pr_curve
    plt.close("all")
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t.call(fn, list(algs), **kw)
        t.check(len(plt.get_fignums()) == 1, lambda: "%d figures are open after plotting" % len(plt.get_fignums()))
        ax = plt.gcf().gca()
        lines = [(to_rgba(ln.get_color()), np.stack([np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)], 1)) for ln in ax.get_lines() if np.ndim(ln.get_xdata()) == 1]
        marks = [(np.atleast_1d(ln.get_xdata()), np.atleast_1d(ln.get_ydata())) for ln in ax.get_lines() if ln.get_marker() not in ("None", None, "", " ")]
        legend = ax.get_legend()
        texts = [x.get_text() for x in legend.get_texts()]
        handles = [to_rgba(h.get_color()) for h in legend.legend_handles]
        limits = ax.get_xlim() + ax.get_ylim()
    finally:
        plt.close("all")
    points = [np.asarray(xy).ravel() for xy in marks]
    t.check(len(points) == human and all(np.allclose(p, [0.7235, 0.9014]) for p in points), lambda: "the plot has the markers %r (human performance %s)" % (points, "asked for" if human else "not asked for"))
    t.check(limits == (0, 1, 0, 1), lambda: "the axes show %r" % (limits,))
    if case["save"]:
        t.check(os.path.getsize(kw["save_path"]) > 1000, "the saved plot is empty")
    if human:
        t.check(texts[0] == "[F=.80] Human", lambda: "the legend starts with %r" % texts[0])
        texts, handles = texts[1:], handles[1:]
    t.check(len(texts) == n and len(handles) == n, lambda: "the legend lists %r for %d algorithms" % (texts, n))
    # printed scores
    out = [ln for ln in buf.getvalue().split("\n") if ln.startswith("ODS=")]
    t.check(len(out) == n, lambda: "scores of %d algorithms are printed, %d were plotted" % (len(out), n))
    cand = []
    for ln in out:
        m = re.match(r"ODS=(\S+), OIS=(\S+), AP=(\S+), R50=(\S+) - (.*)$", ln)
        t.check(m is not None, lambda: "printed %r" % ln)
        got = [float(x) for x in m.groups()[:4]]
        ok = []
        for i in range(n):
            ov = case["algs"][i]["overall"]
            want = [ov[3], ov[6], ov[8] if len(ov) == 9 else ov[7]]
            if names[i] != m.group(5) or any(abs(a - b) > 0.0005 + 1e-6 for a, b in zip(got, want)):
                continue
            rb = r50_bounds([r for r in case["algs"][i]["rows"] if r[1] >= 1e-3])
            if rb is None and math.isnan(got[3]) or rb is not None and rb[0] - 0.0005 - 1e-6 <= got[3] <= rb[1] + 0.0005 + 1e-6:
                ok.append(i)
        t.check(ok, lambda: "printed %r, which fits no algorithm (overall results %r, R50 %r)" % (
            ln, [(names[i], case["algs"][i]["overall"]) for i in range(n)], [r50_bounds([r for r in case["algs"][i]["rows"] if r[1] >= 1e-3]) for i in range(n)]))
        cand.append(ok)
    t.check(assignment(cand) is not None, lambda: "the printed scores %r do not cover every algorithm (they fit %r)" % (out, cand))
    # legend: best first, each with the color of its own curve
    cand = []
    for text, color in zip(texts, handles):
        m = re.match(r"\[F=(\d\.\d\d)\] (.*)$", text)
        t.check(m is not None, lambda: "legend entry %r" % text)
        drawn = [xy for c, xy in lines if np.allclose(c, color, atol=1e-6)]
        ok = []
        for i in range(n):
            if names[i] != m.group(2) or abs(float(m.group(1)) - case["algs"][i]["overall"][3]) > 0.005 + 1e-6:
                continue
            want = np.array([[r[1], r[2]] for r in case["algs"][i]["rows"] if r[1] >= 1e-3]).reshape(-1, 2)
            if any(xy.shape == want.shape and np.array_equal(xy, want) for xy in drawn) and (not case["colors"] or np.allclose(color, palette[i], atol=1e-6)):
                ok.append(i)
        t.check(ok, lambda: "legend entry %r: no algorithm of this name and F1 has its curve drawn in this colour" % text)
        cand.append(ok)
    score = [a["overall"][3] for a in case["algs"]]
    t.check(assignment(cand) is not None, lambda: "the legend %r does not list every algorithm (its entries fit %r)" % (texts, cand))
    t.check(assignment(cand, [np.float32(x) for x in score]) is not None, lambda: "the legend %r does not list the algorithms by F1 (%r)" % (texts, score))
    f1s = score
    t.nontrivial(n > 1 and len({len(a["rows"]) for a in case["algs"]}) > 1 and len(set(f1s)) > 1)
    t.label(case["fn"])
    t.label("points below the smallest recall", any(r[1] < 1e-3 for a in case["algs"] for r in a["rows"]))
    t.label("no point left", any(all(r[1] < 1e-3 for r in a["rows"]) for a in case["algs"]))
    t.label("8-value results", any(len(a["overall"]) == 8 for a in case["algs"]))
    t.label("R50 interpolated", any(r50_bounds(a["rows"]) is not None and not any(r[2] == 0.5 for r in a["rows"]) for a in case["algs"]))


SUBS = [Sub("plot", plot_case, check, 1200, 15000), Sub("replaced", lambda: g.replaced(plot_case), g.check_replaced(check), 80, 800)]
