"""C06: per-image counts against a single ground truth are exact."""
import math

import numpy as np
from hypothesis import strategies as st

from pyEdgeEval.common.binary_label.evaluate_boundaries import evaluate_boundaries_threshold as eval_binary
from pyEdgeEval.common.multi_label.evaluate_boundaries import evaluate_boundaries_threshold as eval_multi
from pyEdgeEval.preprocess import fast_nms
from vlib import evalref
from vlib import gens as g
from vlib.harness import Sub

RULE = ("8-bit predictions (value/255) of 2x2 to 36x36 (enlarged up to 110x110) against generated edge maps, 1-99 thresholds on, between and beyond the "
        "8-bit levels in any order, tolerance 0.4-6 px, thinning, NMS and skip flags; non-trivial: some threshold has a match "
        "and either unmatched or thinned-away pixels")
ASSUMPTIONS = ["a single matching call is exact up to 7 matchable pixels, reaches the optimum within 26 calls up to 60, and loses at most 6+4% above (C02)"]


@st.composite
def count_case(draw):
    h, w = draw(g.dims(2, draw(st.sampled_from([6, 14, 36]))))
    gt = draw(st.one_of(g.strokes(h, w), g.bitmap(h, w), g.sparse_points(h, w), g.strokes(h, w), g.sparse_points(h, w, 1)))
    return {"pred": draw(g.pred_uint8(h, w, gt)), "gt": gt.astype(draw(st.sampled_from(["bool", "uint8", "float64", "int64"]))),
            "thr": draw(g.threshold_list()), "tol": draw(st.sampled_from([0.4, 1.0, 1.1, 1.5, 2.1, 3.3, 6.1])),
            "thin": draw(st.booleans()), "nms": draw(st.sampled_from([None, None, None, None, None, {}, {"r": 2, "s": 0}, {"r": 1, "s": 2, "m": 1.2}])),
            "skip": draw(st.booleans()), "fn": draw(st.sampled_from(["binary", "multi"]))}


def check(case, t):
    pred = case["pred"] / 255.0
    gt = case["gt"]
    thr = np.array(case["thr"])
    md = case["tol"] / math.hypot(*gt.shape)
    kw = {"max_dist": md, "apply_thinning": case["thin"]}
    nms_fn = None
    if case["nms"] is not None:
        kw["apply_nms"] = True
        if case["nms"]:
            kw["nms_kwargs"] = dict(case["nms"])
        nms_fn = lambda p: t.call(fast_nms, p, **case["nms"])  # noqa: E731
    skip = False
    if case["fn"] == "multi":
        skip = case["skip"]
        kw["skip_if_nonexistent"] = skip
    fn = eval_multi if case["fn"] == "multi" else eval_binary

    def run():
        return t.call(fn, thr, pred, gt, **kw)

    keep = (thr.copy(), pred.copy(), gt.copy())
    got = run()
    for a, b, n in zip((thr, pred, gt), keep, ("thresholds", "prediction", "ground truth")):
        t.eq_array(a, b, n + " after the evaluation")
    rows = evalref.expected(thr, pred, gt, md, case["thin"], nms_fn, skip)
    evalref.compare(t, got, rows, run)
    t.nontrivial(any(r.hi > 0 and (r.hi < r.sum_p or r.hi < r.sum_r) for r in rows))
    t.label("empty ground truth", not gt.any())
    t.label("empty ground truth with predictions", not gt.any() and pred.any())
    t.label("exact oracle with matches", any(0 < r.hi and r.n <= 7 for r in rows))
    t.label("large", any(r.n > 60 for r in rows))
    t.label("nms", nms_fn is not None)
    t.label("a threshold equals a level", bool(np.isin(thr, pred).any()))
    t.label(case["fn"])


@st.composite
def large_case(draw):
    """Large images and many thresholds; mostly with tolerances below one pixel, where the counts are exact."""
    c = draw(count_case())
    h, w = c["gt"].shape
    f = draw(st.integers(1, max(1, 110 // h))), draw(st.integers(1, max(1, 110 // w)))
    if f[0] * f[1] > 4:
        f = (f[0], max(1, 4 * 36 // w)) if draw(st.booleans()) else f
    grown = np.kron(c["gt"].astype(np.uint8), np.ones(f, np.uint8))
    moved = g.shift(grown, draw(st.integers(-1, 1)), draw(st.integers(-1, 1)))
    outline = grown & ~(moved & g.shift(moved, 1, 1))
    c["gt"] = (outline if draw(st.booleans()) else grown).astype(c["gt"].dtype)
    c["pred"] = np.kron(c["pred"], np.ones(f, np.uint8))
    c["tol"] = draw(st.sampled_from([0.4, 0.9, 0.4, 0.9, 1.1]))
    k = draw(st.sampled_from([3, 3, 12, 40, 99]))
    c["thr"] = draw(st.sampled_from([[(i + 1) / (k + 1) for i in range(k)], [i / 255 for i in range(1, 255, 255 // k + 1)], [(k - i) / k for i in range(k)]]))
    c["nms"] = None
    return c


SUBS = [Sub("counts", count_case, check, 16000, 200000), Sub("large", large_case, check, 160, 5000)]
