"""C20: on-the-fly Cityscapes evaluation equals evaluation on converted ground truth."""
import contextlib
import io
import json
import os

import numpy as np
from hypothesis import strategies as st

from pyEdgeEval.datasets import cityscapes_eval_single, otf_cityscapes_eval_single
from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes
from vlib import datasets as ds
from vlib import evalref
from vlib import gens as g
from vlib.harness import Sub

RULE = ("label, instance and prediction images of 2x2 to 20x20 on disk, all categories, radius 1-3, scales 0.25-1; non-trivial: the ground truth of "
        "the category is not empty and some threshold has a match")
ASSUMPTIONS = ["matching as in C02, NMS as in C05", "nearest-neighbour resizing is Pillow's"]


@st.composite
def otf_case(draw):
    return {"s": draw(ds.otf_sample()), "thr": draw(g.threshold_list(3))}


def check(case, t):
    s = case["s"]
    d = t.tmp()
    run, kw = ds.write_sample("otf", s, d)
    before = {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}
    go = lambda: t.call(run, case["thr"])  # noqa: E731
    got = go()
    rows, gt, pred = ds.expected("otf", s, case["thr"])
    evalref.compare(t, got, rows, go)
    t.check(before == {f: open(os.path.join(d, f), "rb").read() for f in os.listdir(d)}, "a file was changed")
    t.nontrivial(bool(gt.any()) and any(r.hi > 0 for r in rows))
    t.label("kill matters", bool(s["kill"]) and any(r.sum_p != q.sum_p for r, q in zip(rows, ds.expected("otf", dict(s, kill=False), case["thr"])[0])))
    t.label("scaled", s["scale"] != 1)
    t.label("instances matter", s["inst"] is not None and bool((ds.expected("otf", dict(s, inst=None), case["thr"])[1] != gt).any()))
    t.label("category absent", not gt.any())


@st.composite
def conv_case(draw):
    h, w = draw(g.dims(2, draw(st.sampled_from([8, 18]))))
    lab, inst = draw(ds.label_pair(h, w, draw(st.sampled_from([[0, 2, 3, 7, 24, 26], [24, 25, 26, 3], [7, 8, 11, 33, 1]]))))
    cats = sorted({ds.TRAIN[int(v)] + 1 for v in np.unique(lab) if int(v) in ds.TRAIN} | {draw(st.integers(1, 19))})
    p = draw(ds.params((1.0,)))
    p["nms"] = False
    return {"lab": lab, "inst": inst, "cats": cats, "is": draw(st.booleans()), "radius": draw(st.sampled_from([1, 2, 3])),
            "pred": draw(g.pred_uint8(h, w)), "p": p, "thr": draw(g.threshold_list(2))}


def check_conv(case, t):
    d = t.tmp()
    base = os.path.join(d, "gtFine", "val", "ulm", "ulm_0_0")
    for s in ("train", "test"):
        os.makedirs(os.path.join(d, "gtFine", s))
    ds.write_img(base + "_gtFine_labelIds.png", case["lab"])
    ds.write_img(base + "_gtFine_instanceIds.png", case["inst"])
    h, w = case["lab"].shape
    json.dump({"imgHeight": h, "imgWidth": w, "objects": []}, open(base + "_gtFine_polygons.json", "w"))
    with contextlib.redirect_stdout(io.StringIO()):
        t.call(convert_cityscapes, "gtEval", cityscapes_root=d, inst_sensitive=case["is"], raw_val_radius=case["radius"], save_half_val=False, nproc=1)
    out = os.path.join(d, "gtEval", "val", "ulm", "ulm_0_0")
    ds.write_img(os.path.join(d, "pred.png"), case["pred"])
    # the converted trunk has no train ids drawn from polygons here: write them from the labels
    seg = np.full((h, w), 255, np.uint8)
    for k, v in ds.TRAIN.items():
        seg[case["lab"] == k] = v
    ds.write_img(out + "_seg.png", seg)
    p = case["p"]
    for c in case["cats"]:
        common = dict(pred_path=os.path.join(d, "pred.png"), category=c, scale=1.0, max_dist=p["tol"] / np.hypot(h, w), thresholds=case["thr"],
                      apply_thinning=p["thin"], apply_nms=False, kill_internal=p["kill"], skip_if_nonexistent=p["skip"])
        a = lambda: t.call(otf_cityscapes_eval_single, dict(common, seg_path=base + "_gtFine_labelIds.png", inst_path=base + "_gtFine_instanceIds.png" if case["is"] else None, radius=case["radius"]))  # noqa: E731
        b = lambda: t.call(cityscapes_eval_single, dict(common, seg_path=out + "_seg.png", edge_path=out + "_gtProc_raw_%s.png" % ("isedge" if case["is"] else "edge"), num_classes=19))  # noqa: E731
        x = [np.asarray(v, float) for v in a()]
        y = [np.asarray(v, float) for v in b()]
        for n, u, v in zip(("sum_r", "sum_p"), (x[1], x[3]), (y[1], y[3])):
            t.eq_array(u, v, "category %d, on the fly against converted: %s" % (c, n))
        for _ in range(25):  # a single matching may lose pixels, see C02
            if (x[0] == y[0]).all() and (x[2] == y[2]).all():
                break
            x = [np.maximum(u, np.asarray(v, float)) for u, v in zip(x, a())]
            y = [np.maximum(u, np.asarray(v, float)) for u, v in zip(y, b())]
        big = max(x[1].max(), 1) > 60
        t.eq_array(x[0], y[0], "category %d, on the fly against converted: matches" % c, exact=not big, tol=6 + 0.04 * x[1].max())
        t.nontrivial(bool((x[0] > 0).any()))
    t.label("instance-sensitive", case["is"])


@st.composite
def segment_case(draw):
    """Which labels belong to the segment of a category, and which give edges: everything is predicted, the interior removed."""
    cat = draw(st.integers(1, 19))
    L = ds.LABEL[cat - 1]
    others = draw(st.lists(st.integers(0, 33), min_size=1, max_size=4, unique=True))
    return {"cat": cat, "palette": [L] + others, "h": draw(st.integers(12, 30)), "w": draw(st.integers(12, 40)), "seed": draw(st.integers(0, 10**6)),
            "thr": [0.5], "radius": draw(st.sampled_from([1, 2])), "inst": draw(st.booleans()), "thin": False, "kill": draw(st.sampled_from([True, True, False]))}


def check_segment(case, t):
    d = t.tmp()
    r = np.random.default_rng(case["seed"])
    h, w = case["h"], case["w"]
    lab = np.full((h, w), case["palette"][int(r.integers(0, len(case["palette"])))], np.uint8)
    for v in list(r.permutation(case["palette"])) * 2:
        y, x, a, b = int(r.integers(-4, h - 4)), int(r.integers(-4, w - 4)), int(r.integers(5, 16)), int(r.integers(5, 16))
        lab[max(0, y):y + a, max(0, x):x + b] = v
    inst = lab.astype(np.uint16)
    for v in ds.INST:
        inst[lab == v] = v * 1000 + (np.argwhere(lab == v)[:, 1] // 9)
    s = {"lab": lab, "inst": inst if case["inst"] else None, "pred": np.full((h, w), 200, np.uint8), "category": case["cat"], "radius": case["radius"],
         "tol": 1.2, "thin": False, "nms": False, "kill": case["kill"], "skip": False, "scale": 1.0}
    run, _ = ds.write_sample("otf", s, d)
    got = [float(x[0]) for x in t.call(run, case["thr"])]
    row = ds.expected("otf", s, case["thr"])[0][0]
    t.check(got[1] == row.sum_r, lambda: "category %d: %d ground-truth pixels, expected %d" % (case["cat"], got[1], row.sum_r))
    t.check(row.amb or got[3] == row.sum_p, lambda: "category %d: %d predicted pixels are left, expected %d" % (case["cat"], got[3], row.sum_p))
    t.check(got[0] == got[2] <= row.hi, lambda: "category %d: %d and %d matches, at most %d are possible" % (case["cat"], got[0], got[2], row.hi))
    t.check(got[0] >= row.lo, lambda: "category %d: %d matches, %d are possible" % (case["cat"], got[0], row.hi))
    t.nontrivial(row.sum_r > 0)
    t.label("interior removed", row.sum_p < h * w)
    t.label("category %d" % case["cat"])


SUBS = [
    Sub("segments", segment_case, check_segment, 4000, 40000),
    Sub("counts", otf_case, check, 11000, 120000),
    Sub("replaced", lambda: g.replaced(otf_case), g.check_replaced(check), 600, 6000),
    Sub("converted", conv_case, check_conv, 1200, 12000),
]
