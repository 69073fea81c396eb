"""C08: interior predictions are removed exactly where kill_internal says."""
import math

import numpy as np
from hypothesis import strategies as st

from pyEdgeEval.common.multi_label.evaluate_boundaries import evaluate_boundaries_threshold
from pyEdgeEval.common.multi_label.options import kill_internal_prediction
from vlib import evalref
from vlib import gens as g
from vlib import ref
from vlib.harness import Sub

RULE = ("predictions (binary and graded), non-empty edge maps and boolean segments of 1x1 to 30x30, tolerance 0.3-8 px, also exactly the distance of a pixel; "
        "non-trivial: a predicted pixel is removed and one inside the segment stays")
ASSUMPTIONS = ["distances within 1e-9 of the tolerance may be judged either way"]
TOLS = [0.3, 0.9, 1.2, 1.5, 2.1, 2.5, 3.3, 4.7, 8.1]

# hardly more and hardly less than the distance of a pixel
NEAR = st.tuples(st.integers(1, 70), st.sampled_from([-1e-4, -1e-5, -1e-6, 1e-6, 1e-5, 1e-4])).map(lambda v: math.sqrt(v[0]) * (1 + v[1]))


@st.composite
def segmented(draw, lo=1):
    h, w = draw(g.dims(lo, draw(st.sampled_from([6, 14, 30]))))
    seg = draw(st.one_of(g.strokes(h, w), g.bitmap(h, w)))
    kind = draw(st.sampled_from(["boundary", "strokes", "points"]))
    if kind == "boundary":  # an edge map that goes with the segment
        gt = seg & ~(g.shift(seg, 1, 0) & g.shift(seg, -1, 0) & g.shift(seg, 0, 1) & g.shift(seg, 0, -1))
    elif kind == "strokes":
        gt = draw(g.strokes(h, w))
    else:
        gt = draw(g.sparse_points(h, w, 4))
    return seg, gt


@st.composite
def kill_case(draw):
    if draw(st.integers(0, 3)) == 0:  # edge pixels exactly at the tolerance
        h, w, md = draw(st.sampled_from(ref.EXACT))
        seg, gt, tol = draw(g.strokes(h, w)), draw(g.sparse_points(h, w, 3)), 5.0
    else:
        seg, gt = draw(segmented())
        md, tol = None, draw(st.one_of(st.sampled_from(TOLS), NEAR))
    h, w = seg.shape
    if not gt.any():
        gt[draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1))] = True
    kind = draw(st.sampled_from(["bool", "bool", "float", "uint8"]))
    p = draw(st.one_of(g.noise(h, w), g.bitmap(h, w), st.just(np.ones((h, w), bool))))
    pred = p if kind == "bool" else draw(g.pred_uint8(h, w)) / 255.0 if kind == "float" else p.astype(np.uint8)
    return {"seg": seg, "gt": gt.astype(draw(st.sampled_from(["bool", "uint8", "int64"]))), "pred": pred, "tol": tol, "md": md}


def check_kill(case, t):
    seg, gt, pred = case["seg"], case["gt"], case["pred"]
    md = case["md"] or case["tol"] / math.hypot(*seg.shape)
    keep = seg.copy(), gt.copy(), pred.copy()
    out = t.call(kill_internal_prediction, pred=pred, gt=gt, seg=seg, max_dist=md)
    for a, b, n in zip((seg, gt, pred), keep, ("segment", "ground truth", "prediction")):
        t.eq_array(a, b, n + " after the call")
    lim = ref.tol_px(seg.shape, md)
    dist = ref.dist_to(gt)
    amb = seg & (np.abs(dist - lim) <= 1e-9 * max(1, lim))
    if ref.exact(seg.shape, md):
        amb &= False
    kill = seg & (dist > lim)
    want = np.where(kill, 0, pred)
    out = np.asarray(out)
    t.eq_array(np.where(amb, 0, out), np.where(amb, 0, want), "kill_internal_prediction")
    t.nontrivial(bool((kill & (pred != 0)).any()) and bool((seg & ~kill & (pred != 0)).any()))
    t.label("exactly at the tolerance", bool((seg & (dist == lim) & (pred != 0)).any()))
    t.label("outside the segment and far", bool((~seg & (dist > lim) & (pred != 0)).any()))


@st.composite
def eval_case(draw):
    seg, gt = draw(segmented(2))
    h, w = seg.shape
    if draw(st.sampled_from([False, False, False, True])):
        gt = np.zeros_like(gt)
    return {"seg": seg, "gt": gt.astype(draw(st.sampled_from(["bool", "uint8"]))), "pred": draw(g.pred_uint8(h, w, gt)), "tol": draw(st.sampled_from(TOLS)),
            "thr": draw(g.threshold_list(3)), "thin": draw(st.booleans()), "kill": draw(st.sampled_from([True, True, False])), "skip": draw(st.booleans())}


def check_eval(case, t):
    pred = case["pred"] / 255.0
    gt, seg = case["gt"], case["seg"]
    thr = np.array(case["thr"])
    md = case["tol"] / math.hypot(*gt.shape)

    def run():
        return t.call(evaluate_boundaries_threshold, thr, pred, gt, gt_seg=seg, max_dist=md, apply_thinning=case["thin"],
                      kill_internal=case["kill"], skip_if_nonexistent=case["skip"])

    keep = seg.copy(), gt.copy(), pred.copy()
    got = run()
    for a, b, n in zip((seg, gt, pred), keep, ("segment", "ground truth", "prediction")):
        t.eq_array(a, b, n + " after the evaluation")
    rows = evalref.expected(thr, pred, gt, md, case["thin"], None, case["skip"], seg if case["kill"] else None)
    evalref.compare(t, got, rows, run)
    plain = evalref.expected(thr, pred, gt, md, case["thin"], None, case["skip"], None)
    removed = any(a.sum_p != b.sum_p for a, b in zip(rows, plain))
    t.nontrivial(removed or (not case["kill"] and any(r.sum_p for r in rows)))
    t.label("removed some", removed)
    t.label("empty ground truth", not gt.any())
    t.label("kill off", not case["kill"])


SUBS = [Sub("kill", kill_case, check_kill, 10000, 100000), Sub("evaluate", eval_case, check_eval, 9000, 100000)]
