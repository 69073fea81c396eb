"""C09: ODS, OIS, AUC and AP are the correct aggregates of per-image counts."""

import numpy as np
from hypothesis import strategies as st

from pyEdgeEval.common.binary_label.calculate_metrics import calculate_metrics as calc_binary
from pyEdgeEval.common.multi_label.calculate_metrics import calculate_metrics as calc_multi
from vlib import metricsref as mr
from vlib.harness import Sub

RULE = ("1-8 samples with count tables over 1-12 thresholds (random, monotone as real detectors give them, all-zero, perfect, without "
        "ground truth or predictions), or 1-3 samples over 13-120 thresholds with counts up to forty million; non-trivial: at least two samples, two thresholds and two distinct recall values")
ASSUMPTIONS = ["where thresholds tie up to rounding, any of them may be reported (the first where the tie is exact: equal counts, or no positive F1); where several thresholds share one recall, AUC may use any of their precisions"]


def eval_single(sample, **_kw):
    return tuple(np.array(sample[k], float) for k in ("count_r", "sum_r", "count_p", "sum_p"))


def close(a, b):
    return mr.close(a, b, 1e-9)


@st.composite
def sample(draw, n, name):
    kind = draw(st.sampled_from(["detector", "random", "detector", "zero", "nogt", "nopred", "nomatch", "perfect"]))
    if kind == "zero":
        z = [0] * n
        return dict(name=name, count_r=z, sum_r=z, count_p=z, sum_p=z)
    if kind == "detector":
        sp = sorted((draw(st.integers(0, 120)) for _ in range(n)), reverse=True)
        sr = draw(st.integers(0, 80))
        cp = sorted((draw(st.integers(0, 120)) for _ in range(n)), reverse=True)
        cp = [min(a, b, sr) for a, b in zip(cp, sp)]
        return dict(name=name, count_r=list(cp), sum_r=[sr] * n, count_p=cp, sum_p=sp)
    if kind == "perfect":
        k = draw(st.integers(1, 30))
        return dict(name=name, count_r=[k] * n, sum_r=[k] * n, count_p=[k] * n, sum_p=[k] * n)
    sr = [draw(st.integers(0, 60)) for _ in range(n)]
    sp = [draw(st.integers(0, 60)) for _ in range(n)]
    if kind == "nogt":
        sr = [0] * n
    if kind == "nopred":
        sp = [0] * n
    cr = [0 if kind == "nomatch" else draw(st.integers(0, x)) for x in sr]
    cp = [0 if kind == "nomatch" else draw(st.integers(0, x)) for x in sp]
    return dict(name=name, count_r=cr, sum_r=sr, count_p=cp, sum_p=sp)


@st.composite
def table_case(draw):
    n = draw(st.integers(1, 12))
    k = draw(st.integers(1, 8))
    names = ["s%d" % i for i in range(k)]
    kind = draw(st.sampled_from(["int", "list", "list", "array"]))
    if kind == "int":
        thr = n
    else:
        thr = [v / 1000 for v in draw(st.lists(st.integers(1, 999), min_size=n, max_size=n, unique=True))]
        if draw(st.booleans()):
            thr.sort()
    return {"thr": thr, "array": kind == "array", "samples": [draw(sample(n, x)) for x in names],
            "fn": draw(st.sampled_from(["binary", "multi"])), "perm": draw(st.permutations(range(k))), "zeros": draw(st.integers(0, 2))}


@st.composite
def many_case(draw):
    """Many thresholds and large counts, as real evaluations have them."""
    n, k = draw(st.one_of(st.integers(13, 120), st.sampled_from([30, 31, 99, 100, 101]))), draw(st.integers(1, 3))
    r = np.random.RandomState(draw(st.integers(0, 10**6)))
    big = draw(st.sampled_from([50, 1000, 20000, 10**6, 4 * 10**7]))
    flat = draw(st.booleans())
    ss = []
    for i in range(k):
        sr = int(r.randint(0, big + 1))
        sp = np.sort(r.randint(0, big * draw(st.sampled_from([1, 1, 50])) + 1, n))[::-1]
        q = np.sort(r.rand(n))[::-1] * draw(st.sampled_from([1.0, 0.5, 0.01, 1e-3]))
        cp = np.minimum(np.minimum((sp * r.rand(n) if not flat else sp * q).astype(int), sp), sr)
        cr = np.minimum((sr * (np.ceil(q * 4) / 4 if draw(st.booleans()) else q)).astype(int), sr)
        ss.append(dict(name="s%d" % i, count_r=cr.tolist(), sum_r=[sr] * n, count_p=cp.tolist(), sum_p=sp.tolist()))
    best = draw(st.sampled_from([None, None, 0, n - 1, n - 2, n // 2]))
    if best is not None:  # a clear maximum at a chosen threshold
        for x in ss:
            x["count_r"][best] = x["sum_r"][best]
            x["count_p"][best] = x["sum_p"][best] = x["sum_r"][best]
    thr = n if draw(st.booleans()) else [(i + 1) / (n + 2) for i in range(n)]
    return {"thr": thr, "array": draw(st.booleans()) and not isinstance(thr, int), "samples": ss, "fn": draw(st.sampled_from(["binary", "multi"])), "perm": draw(st.permutations(range(k))), "zeros": draw(st.integers(0, 1))}


def check(case, t):
    samples = case["samples"]
    n = len(samples[0]["sum_r"])
    fn = calc_binary if case["fn"] == "binary" else calc_multi
    spec = np.array(case["thr"]) if case["array"] else case["thr"]
    thr = [(i + 1) / (n + 1) for i in range(n)] if isinstance(case["thr"], int) else [float(v) for v in case["thr"]]

    def run(ss):
        return t.call(fn, eval_single, spec, ss, nproc=1)

    sres, tres, ores = run(samples)
    curve = mr.curve_of(samples, n)
    try:
        mr.judge_thresholds(thr, curve, tres)
        picked = mr.judge_samples(thr, samples, sres, exact=True)
        mr.judge_overall(thr, samples, picked, ores)
    except mr.Mismatch as e:
        t.fail(str(e))
    rec = [c[0] for c in curve]
    for k in mr.KEYS[1:]:
        v = ores[k]
        t.check(-1e-9 <= v <= 1 + 1e-9, lambda: "%s is %r" % (k, v))
    if n and all(c[2] == 1.0 for c in curve):
        for k in ("ODS_f1", "OIS_f1", "AP"):
            t.check(close(ores[k], 1.0), lambda: "a perfect detector has %s %r" % (k, ores[k]))
        t.label("perfect detector")
    # relations
    z = [0] * n
    variants = {
        "permuted": [samples[i] for i in case["perm"]],
        "duplicated": samples + samples,
        "with empty samples": samples + [dict(name="z", count_r=z, sum_r=z, count_p=z, sum_p=z)] * case["zeros"],
    }
    for what, ss in variants.items():
        o2 = run(ss)[2]
        for k in mr.KEYS:
            t.check(close(o2[k], ores[k]), lambda: "%s is %r, for the %s samples %r" % (k, ores[k], what, o2[k]))
    t.nontrivial((len(samples) >= 2 or n > 12) and n >= 2 and len(set(rec)) >= 2)
    t.label("ODS between thresholds", n > 1 and not any(close(ores["ODS_threshold"], x) for x in thr))
    t.label("OIS above ODS", ores["OIS_f1"] > ores["ODS_f1"] + 1e-6)
    t.label("tied recalls", len(set(rec)) < n)
    t.label("unsorted thresholds", thr != sorted(thr))
    t.label("samples differ in best threshold", len(set(picked)) > 1)


@st.composite
def score_case(draw):
    v = st.one_of(st.floats(0, 1).map(lambda x: x if x > 1e-20 else 0.0), st.sampled_from([0.0, 1.0, 1e-3, 1e-6, 1e-7, 3e-9, 1e-12]), st.integers(1, 10**6).map(lambda k: k / 10**7))
    n = draw(st.integers(1, 8))
    return {"rec": [draw(v) for _ in range(n)], "prec": [draw(v) for _ in range(n)], "scale": draw(st.sampled_from([1.0, 1e-2, 2.0**-20, 2.0**-30, 1e-9])), "array": draw(st.booleans())}


def check_scores(case, t):
    """The elementary formulas keep their relative precision, however small the scores are."""
    from pyEdgeEval.common import metrics as M

    def near(a, b, rel=1e-9):
        return abs(float(a) - b) <= rel * abs(b) + 1e-300

    rec, prec = [x * case["scale"] for x in case["rec"]], [x * case["scale"] for x in case["prec"]]
    want = [mr.f1(p, r) for p, r in zip(prec, rec)]
    if case["array"]:
        got = t.call(M.f1, np.array(prec), np.array(rec))
        t.check(np.shape(got) == (len(rec),), lambda: "f1 of arrays has shape %r" % (np.shape(got),))
    else:
        got = [t.call(M.f1, p, r) for p, r in zip(prec, rec)]
    for i in range(len(rec)):
        t.check(near(got[i], want[i]), lambda: "f1 of precision %r and recall %r is %r, expected %r" % (prec[i], rec[i], got[i], want[i]))
    big = 4 * 10**9
    cr, cp = [round(x * big) for x in rec], [round(x * big) for x in prec]
    r, p, f = t.call(M.compute_rec_prec_f1, np.array(cr, float), np.full(len(cr), float(big)), np.array(cp, float), np.full(len(cr), float(big)))
    for i in range(len(rec)):
        for what, a, b in (("recall", r[i], cr[i] / big), ("precision", p[i], cp[i] / big), ("F1", f[i], mr.f1(cp[i] / big, cr[i] / big))):
            t.check(near(a, b), lambda: "%s of %d and %d matches among %d is %r, expected %r" % (what, cr[i], cp[i], big, a, b))
    thr = [(i + 1) / (len(rec) + 1) for i in range(len(rec))]
    best = t.call(M.interpolated_max_scores, np.array(thr), np.array(rec), np.array(prec))
    top = want[0]
    for i in range(1, len(rec)):
        for k in range(101):
            d = k / 100
            top = max(top, mr.f1(prec[i] * d + prec[i - 1] * (1 - d), rec[i] * d + rec[i - 1] * (1 - d)))
    t.check(near(best[3], top), lambda: "the best F1 is %r, expected %r" % (best[3], top))
    t.check(near(mr.f1(float(best[2]), float(best[1])), float(best[3])), lambda: "the best point %r does not have its F1" % (best,))
    t.nontrivial(top > 0)
    t.label("below a millionth", 0 < top < 1e-6)


SUBS = [Sub("scores", score_case, check_scores, 3000, 40000), Sub("aggregate", table_case, check, 8000, 150000), Sub("many", many_case, check, 1500, 20000)]
