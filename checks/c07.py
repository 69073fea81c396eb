"""C07: multi-annotator counts sum recall over annotators and union precision."""
import math

import numpy as np
from hypothesis import strategies as st

from pyEdgeEval.common.binary_label.evaluate_boundaries import (
    evaluate_boundaries_threshold,
    evaluate_boundaries_threshold_multiple_gts,
)
from pyEdgeEval.preprocess import fast_nms
from vlib import evalref
from vlib import gens as g
from vlib import ref
from vlib.harness import Sub

RULE = ("8-bit predictions of 2x2 to 28x28 with 1-13 annotations (perturbed copies of one map, independent, empty, repeated), as list or "
        "3-D array; non-trivial: at least two annotations have matches and the union of matched predictions is determined")
ASSUMPTIONS = ["matching as in C02; where several best matchings exist, the union of matched pixels may be any between the bounds"]


@st.composite
def multi_case(draw):
    h, w = draw(g.dims(2, draw(st.sampled_from([6, 12, 28]))))
    base = draw(st.one_of(g.strokes(h, w), g.bitmap(h, w), g.sparse_points(h, w)))
    gts = []
    for _ in range(draw(st.one_of(st.integers(1, 5), st.integers(2, 5), st.integers(1, 13)))):
        k = draw(st.sampled_from(["shift", "noise", "same", "indep", "empty", "few"]))
        if k == "shift":
            m = g.shift(base, draw(st.integers(-1, 1)), draw(st.integers(-1, 1)))
        elif k == "noise":
            m = base & draw(g.noise(h, w))
        elif k == "same":
            m = base.copy()
        elif k == "indep":
            m = draw(g.bitmap(h, w))
        elif k == "few":
            m = draw(g.sparse_points(h, w))
        else:
            m = np.zeros((h, w), bool)
        gts.append(m)
    return {"pred": draw(g.pred_uint8(h, w, base)), "gts": np.stack(gts).astype(draw(st.sampled_from(["bool", "uint8"]))),
            "aslist": draw(st.booleans()), "thr": draw(g.threshold_list(3)), "tol": draw(st.sampled_from([0.4, 0.4, 1.0, 1.2, 2.1, 3.3])),
            "thin": draw(st.booleans()), "nms": draw(st.sampled_from([False, False, False, True])),
            "perm": draw(st.permutations(range(len(gts))))}


def check(case, t):
    pred = case["pred"] / 255.0
    gts = case["gts"]
    thr = np.array(case["thr"])
    shape = pred.shape
    md = case["tol"] / math.hypot(*shape)
    d = ref.tol_px(shape, md)
    kw = {"max_dist": md, "apply_thinning": case["thin"], "apply_nms": case["nms"]}
    arg = [x for x in gts] if case["aslist"] else gts
    keep = gts.copy(), pred.copy()

    def run(a=arg):
        return [np.asarray(x, float) for x in t.call(evaluate_boundaries_threshold_multiple_gts, thr, pred, a, **kw)]

    got = run()
    t.eq_array(gts, keep[0], "annotations after the evaluation")
    t.eq_array(pred, keep[1], "prediction after the evaluation")
    cr, sr, cp, sp = got
    for x in got:
        t.check(x.shape == thr.shape, "a count array has shape %r for %d thresholds" % (x.shape, len(thr)))
    nms_out = t.call(fast_nms, pred) if case["nms"] else None
    det = False
    small = True
    his = []
    for i, th in enumerate(thr):
        P = evalref.predicted(pred, th, case["thin"], nms_out)
        t.check(sp[i] == P.sum(), lambda: "sum_p is %g, expected %d" % (sp[i], P.sum()))
        t.check(sr[i] == (gts != 0).sum(), lambda: "sum_r is %g, expected %d" % (sr[i], (gts != 0).sum()))
        los, hs, full, nmax = [], [], True, 0
        union = np.zeros(shape, bool)
        for gt in gts:
            k, n1, n2 = ref.max_matching(P, gt, d)
            hs.append(k)
            n = max(n1, n2)
            nmax = max(n, nmax)
            los.append(k if n <= 7 else max(0, int(k - 6 - 0.04 * n)))
            matchable = P & (ref.dist_to(gt) <= d)
            if n1:
                union |= matchable
            full &= k == n1
        his.append(sum(hs))
        small &= nmax <= 7
        t.check(sum(los) <= cr[i] <= sum(hs), lambda: "count_r is %g, expected %s" % (cr[i], (sum(los), sum(hs))))
        up = min(sum(hs), int(union.sum()))
        lo = max(los)
        if full and nmax <= 7:
            lo = up = int(union.sum())
        t.check(lo <= cp[i] <= up, lambda: "count_p is %g, expected %s" % (cp[i], (lo, up)))
        t.check(cp[i] <= sp[i] and cr[i] <= sr[i], "a count exceeds its sum")
        if lo == up and sum(k > 0 for k in hs) >= 2:
            det = True
        t.label("union exact, partial overlap", lo == up and max(hs) < up < sum(hs))
        t.label("large", nmax > 60)
    if small:
        p = [gts[k] for k in case["perm"]]
        cr2, sr2, cp2, sp2 = run(p)
        t.check((cr2 == cr).all() and (sr2 == sr).all() and (sp2 == sp).all(), "reordering the annotations changes the counts")
        cr3, sr3, cp3, sp3 = run(list(gts) + list(gts))
        t.check((cr3 == 2 * cr).all() and (sr3 == 2 * sr).all() and (sp3 == sp).all(), "repeating the annotations does not double the recall counts")
        if len(gts) == 1 and gts[0].any():
            one = [np.asarray(x, float) for x in t.call(evaluate_boundaries_threshold, thr, pred, gts[0], **kw)]
            for a, b, n in zip(one, got, ("count_r", "sum_r", "count_p", "sum_p")):
                t.eq_array(b, a, "one annotation against the single-ground-truth evaluation: " + n)
            t.label("single annotation")
    t.nontrivial(det)
    t.label("an empty annotation", bool((gts.reshape(len(gts), -1).sum(1) == 0).any()))
    t.label("nms", case["nms"])


SUBS = [Sub("counts", multi_case, check, 10000, 100000)]
