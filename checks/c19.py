"""C19: Cityscapes and SBD sample evaluation uses the right planes, masks and scale."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib import datasets as ds
from vlib import evalref
from vlib import gens as g
from vlib.harness import Sub

RULE = ("edge, label and prediction images of 2x2 to 30x30 on disk, categories 1-20, scales 0.25-1, predictions of the same or another size; "
        "non-trivial: some threshold has a match and the parameters matter (another plane is not empty or the image is rescaled)")
ASSUMPTIONS = ["matching as in C02, NMS as in C05", "nearest-neighbour resizing is Pillow's"]


@st.composite
def single_case(draw):
    kind = draw(st.sampled_from(["cityscapes", "sbd"]))
    s = draw(ds.edge_sample(kind))
    return {"kind": kind, "s": s, "thr": draw(g.threshold_list(3)), "classes": draw(st.sampled_from([0, 0, 0, 1])), "noseg": draw(st.booleans())}


def check(case, t):
    kind, s = case["kind"], case["s"]
    d = t.tmp()
    run, kw = ds.write_sample(kind, s, d)
    over = {}
    if case["classes"]:  # fewer classes than the file holds
        over["num_classes"] = s["category"]
    if case["noseg"] and not s["kill"]:
        over["seg_path"] = os.path.join(d, "absent.png")
    before = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}
    go = lambda: t.call(run, case["thr"], **over)  # noqa: E731
    got = go()
    rows, gt, pred = ds.expected(kind, s, case["thr"])
    evalref.compare(t, got, rows, go, kind + ": ")
    after = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}
    t.check(before == after, "a file was changed")
    other = s["edges"].copy()
    other[s["category"] - 1] = False
    t.nontrivial(any(r.hi > 0 for r in rows) and (bool(other.any()) or s["scale"] != 1))
    t.label(kind)
    t.label("kill matters", bool(s["kill"]) and any(r.sum_p != q.sum_p for r, q in zip(rows, ds.expected(kind, dict(s, kill=False), case["thr"])[0])))
    t.label("skip matters", bool(s["skip"]) and not gt.any() and bool(s["pred"].any()))
    t.label("scaled", s["scale"] != 1)
    t.label("scale rounds up", s["scale"] != 1 and any(int(v * s["scale"]) != int(v * s["scale"] + 0.5) for v in ds.gt_shape(kind, s)))
    t.label("prediction of another size", s["pred"].shape != ds.gt_shape(kind, s))
    t.label("nms", s["nms"])


@st.composite
def segment_case(draw):
    """Which values belong to the segment of a category: everything is predicted, the interior removed."""
    kind = draw(st.sampled_from(["cityscapes", "sbd"]))
    cat = draw(st.integers(1, 19 if kind == "cityscapes" else 20))
    return {"kind": kind, "cat": cat, "vals": [cat - 1, cat] + draw(st.lists(st.one_of(st.integers(0, 21), st.integers(0, 255)), min_size=1, max_size=4)),
            "h": draw(st.integers(14, 32)), "w": draw(st.integers(14, 40)), "seed": draw(st.integers(0, 10**6)), "planes": draw(st.lists(st.integers(1, 19), max_size=3))}


def check_segment(case, t):
    d = t.tmp()
    r = np.random.default_rng(case["seed"])
    kind, h, w, cat = case["kind"], case["h"], case["w"], case["cat"]
    seg = np.full((h, w), case["vals"][0], np.uint8)
    for v in list(r.permutation(case["vals"])) * 2:
        y, x, a, b = int(r.integers(-4, h - 4)), int(r.integers(-4, w - 4)), int(r.integers(3, 14)), int(r.integers(3, 14))
        seg[max(0, y):y + a, max(0, x):x + b] = v
    e = np.zeros((19 if kind == "cityscapes" else 20, h, w), bool)
    for k in [cat] + case["planes"]:
        e[k - 1] = r.random((h, w)) < 0.02
    e[cat - 1, h // 2, w // 2] = True
    s = {"edges": e, "seg": seg, "pred": np.full((h, w), 200, np.uint8), "category": cat, "tol": 2.3, "thin": False, "nms": False, "kill": True, "skip": False, "scale": 1.0}
    run, _ = ds.write_sample(kind, s, d)
    got = [float(x[0]) for x in t.call(run, [0.5])]
    row = ds.expected(kind, s, [0.5])[0][0]
    t.check(got[1] == row.sum_r, lambda: "%s, category %d: %d ground-truth pixels, expected %d" % (kind, cat, got[1], row.sum_r))
    t.check(row.amb or got[3] == row.sum_p, lambda: "%s, category %d: %d predicted pixels are left, expected %d" % (kind, cat, got[3], row.sum_p))
    t.check(got[0] == got[2] <= row.hi, lambda: "%s, category %d: %d and %d matches, at most %d are possible" % (kind, cat, got[0], got[2], row.hi))
    t.check(got[0] >= row.lo, lambda: "%s, category %d: %d matches, %d are possible" % (kind, cat, got[0], row.hi))
    plain = ds.expected(kind, dict(s, kill=False), [0.5])[0][0]
    t.nontrivial(row.sum_p < plain.sum_p)
    t.label("%s category %d" % (kind, cat))


SUBS = [Sub("segments", segment_case, check_segment, 3000, 30000), Sub("counts", single_case, check, 14000, 150000),
        Sub("replaced", lambda: g.replaced(single_case), g.check_replaced(check), 600, 6000)]
