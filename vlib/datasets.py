"""Evaluation samples on disk: generation, writing, and their expected counts."""
import math
import os

import numpy as np
from hypothesis import strategies as st
from PIL import Image

from . import evalref
from . import gens as g
from . import ref

INST = [24, 25, 26, 27, 28, 31, 32, 33]
TRAIN = {7: 0, 8: 1, 11: 2, 12: 3, 13: 4, 17: 5, 19: 6, 20: 7, 21: 8, 22: 9, 23: 10, 24: 11, 25: 12, 26: 13, 27: 14, 28: 15, 31: 16, 32: 17, 33: 18}
LABEL = {v: k for k, v in TRAIN.items()}
TOLS = [0.4, 1.0, 1.1, 1.5, 2.1, 3.3]


def rgb_encode(stack):
    """Bit k of R*65536+G*256+B is class k."""
    stack = np.asarray(stack) != 0
    v = np.zeros(stack.shape[1:], np.int64)
    for k in range(len(stack)):
        v |= stack[k].astype(np.int64) << k
    return np.stack([v >> 16, (v >> 8) & 255, v & 255], -1).astype(np.uint8)


def rgb_decode(img, n):
    img = np.asarray(img).astype(np.int64)
    v = img[..., 0] * 65536 + img[..., 1] * 256 + img[..., 2]
    return np.stack([(v >> k) & 1 for k in range(n)]).astype(np.uint8)


def write_img(path, a):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    Image.fromarray(np.ascontiguousarray(a)).save(path)


def write_bsds_mat(path, gts, segs=None):
    from scipy.io import savemat

    os.makedirs(os.path.dirname(path), exist_ok=True)
    cell = np.empty((1, len(gts)), object)
    for i, b in enumerate(gts):
        b = np.asarray(b).astype(np.uint8)
        cell[0, i] = {"Boundaries": b, "Segmentation": (b * 0 + 1).astype(np.uint16) if segs is None else segs[i]}
    savemat(path, {"groundTruth": cell})


def target_size(shape, scale):
    return int(shape[0] * scale + 0.5), int(shape[1] * scale + 0.5)


def fast_nms_ref(pred):
    """NMS itself is the subject of C05."""
    from pyEdgeEval.preprocess import fast_nms

    return fast_nms(pred, r=1, s=5, m=1.01, half_prec=False)


def nms_alt(pred):
    """NMS of the same 8-bit image read as k * (1 / 255): on equal responses the last bit decides what is kept."""
    return fast_nms_ref(np.rint(np.asarray(pred) * 255.0) * (1 / 255.0))


fast_nms_ref.alt = nms_alt


@st.composite
def params(draw, scales=(1.0, 1.0, 1, 0.5, 0.5, 0.25, 0.7)):
    return {"tol": draw(st.sampled_from(TOLS)), "thin": draw(st.booleans()), "nms": draw(st.sampled_from([False, False, False, True])),
            "kill": draw(st.booleans()), "skip": draw(st.booleans()), "scale": draw(st.sampled_from(list(scales)))}


@st.composite
def bsds_sample(draw, lo=2, hi=20):
    h, w = draw(g.dims(lo, draw(st.sampled_from([8, hi]))))
    base = draw(st.one_of(g.strokes(h, w), g.bitmap(h, w)))
    gts = []
    for _ in range(draw(st.sampled_from([1, 2, 2, 3, 3, 4, 6]))):
        k = draw(st.sampled_from(["shift", "noise", "same", "indep", "empty"]))
        if k == "shift":
            m = g.shift(base, draw(st.integers(-1, 1)), draw(st.integers(-1, 1)))
        elif k == "noise":
            m = base & draw(g.noise(h, w))
        elif k == "same":
            m = base.copy()
        elif k == "indep":
            m = draw(g.bitmap(h, w))
        else:
            m = np.zeros((h, w), bool)
        gts.append(m)
    s = {"gts": np.stack(gts), "pred": draw(g.pred_uint8(h, w, base))}
    s.update(draw(params()))
    return settle("bsds", s)


@st.composite
def edge_stack(draw, n, h, w, active):
    """n edge planes of which only some are used; planes overlap."""
    e = np.zeros((n, h, w), bool)
    for k in active:
        e[k] = draw(st.one_of(g.strokes(h, w), g.bitmap(h, w)))
    return e


def settle(kind, s):
    """fast_nms needs two pixels in each direction."""
    if min(final_shape(kind, s)) < 2:
        s["nms"] = False
    return s


def other_pred_size(draw, h, w):
    if draw(st.sampled_from([False, False, False, False, True])):
        return draw(st.integers(2, 24)), draw(st.integers(2, 24))
    return h, w


@st.composite
def edge_sample(draw, kind, lo=2, hi=20):
    """A Cityscapes or SBD sample: edge planes, label map and a prediction."""
    lo = max(lo, 2)
    if kind == "sbd":
        h, w = draw(st.integers(6, 26)), draw(st.integers(6, 26))  # a 5 px border is removed
        if draw(st.booleans()):
            h, w = draw(st.integers(13, 30)), draw(st.integers(13, 30))
    else:
        h, w = draw(g.dims(lo, draw(st.sampled_from([8, hi]))))
    n = 20 if kind == "sbd" else 19
    cat = draw(st.one_of(st.integers(1, n), st.sampled_from([1, 8, 9, 16, 17, n])))
    active = sorted({cat - 1, draw(st.integers(0, n - 1)), min(cat, n - 1), max(cat - 2, 0)} if draw(st.sampled_from([True, True, True, False])) else {draw(st.integers(0, n - 1))})
    e = draw(edge_stack(n, h, w, active))
    vals = draw(st.sampled_from([[cat, cat - 1, cat, cat - 1, cat + 1, 255, 0], [cat, cat - 1], [cat, 255], [cat - 1, 0]]))
    seg = np.array(vals, np.uint8)[draw(g.blob_labels(h, w, len(vals)))]
    p = draw(params())
    ph, pw = other_pred_size(draw, h, w)
    gt = e[cat - 1]
    if (ph, pw) != (h, w):
        gt = ref.resize_nearest(gt, pw, ph)
    s = {"edges": e, "seg": seg, "pred": draw(g.pred_uint8(ph, pw, gt)), "category": cat}
    if kind == "sbd" and draw(st.booleans()):
        s["pred"][draw(st.sampled_from([0, ph - 1, min(4, ph - 1), min(5, ph - 1)]))] = 200
        s["pred"][:, draw(st.sampled_from([0, pw - 1, min(4, pw - 1), max(0, pw - 5), max(0, pw - 6)]))] = 210
    s.update(p)
    return settle(kind, s)


@st.composite
def label_pair(draw, h, w, palette=None):
    """A Cityscapes label map and its instance map."""
    palette = palette or [0, 2, 3, 7, 11, 24, 26, 33]
    lab = np.array(palette, np.uint8)[draw(g.blob_labels(h, w, len(palette)))]
    patches = draw(g.inst_patches(h, w, 4))
    gone = draw(st.sampled_from([[], [], [0], [1, 2, 3]]))  # patches outside all instances
    nums = draw(st.lists(st.one_of(st.integers(0, 12), st.integers(0, 999)), min_size=4, max_size=4, unique=True))
    inst = lab.astype(np.uint16)
    for c in INST:
        sel = lab == c
        if sel.any() and draw(st.sampled_from([True, True, True, False])):
            inst[sel] = np.where(np.isin(patches[sel], gone), c, c * 1000 + np.array(nums)[patches[sel]])
    return lab, inst


@st.composite
def otf_sample(draw, lo=2, hi=20):
    h, w = draw(g.dims(lo, draw(st.sampled_from([8, hi]))))
    cat = draw(st.one_of(st.sampled_from([1, 3, 12, 12, 14, 14, 19, 2, 13, 18]), st.integers(1, 19)))
    L = LABEL[cat - 1]
    near = [LABEL[c] for c in (cat - 2, cat) if 0 <= c < 19] + [x for x in (L - 1, L + 1) if 0 <= x < 34]
    palette = draw(st.sampled_from([[0, L, 2, L, 3, 7, L, 24, 26], [L, L, 0], [2, L, 3, L], [L, 24, 26, 7], [L] + near, [L, L] + near]))
    lab, inst = draw(label_pair(h, w, palette))
    ph, pw = other_pred_size(draw, h, w)
    pl = ref.resize_nearest(lab, pw, ph)
    gt = ref.class_edge(pl == LABEL[cat - 1], np.zeros((ph, pw), bool), 1)
    s = {"lab": lab, "inst": inst if draw(st.booleans()) else None, "pred": draw(g.pred_uint8(ph, pw, gt)), "category": cat, "radius": draw(st.sampled_from([1, 2, 2, 3]))}
    s.update(draw(params()))
    return settle("otf", s)


def sample_for(kind):
    if kind == "bsds":
        return bsds_sample()
    if kind == "otf":
        return otf_sample()
    return edge_sample(kind)


def gt_shape(kind, s):
    return s["gts"].shape[1:] if kind == "bsds" else s["lab"].shape if kind == "otf" else s["edges"].shape[1:]


def final_shape(kind, s):
    sh = gt_shape(kind, s)
    return sh if kind == "bsds" else target_size(sh, s["scale"])


def max_dist(kind, s):
    return s["tol"] / math.hypot(*final_shape(kind, s))


def write_sample(kind, s, d):
    """Write the files of a sample; returns (function, keyword arguments)."""
    from pyEdgeEval import datasets as D

    if kind == "bsds":
        gt, pr = os.path.join(d, "gt.mat"), os.path.join(d, "pred.png")
        write_bsds_mat(gt, s["gts"])
        write_img(pr, s["pred"])
        kw = dict(gt_path=gt, pred_path=pr)
        fn = D.bsds_eval_single
    else:
        pr = os.path.join(d, "pred.png" if kind != "sbd" else "pred.bmp")
        write_img(pr, s["pred"])
        kw = dict(pred_path=pr, category=s["category"], kill_internal=s["kill"], skip_if_nonexistent=s["skip"])
        if kind == "otf":
            write_img(os.path.join(d, "lab.png"), s["lab"])
            kw.update(seg_path=os.path.join(d, "lab.png"), inst_path=None, radius=s["radius"])
            if s["inst"] is not None:
                write_img(os.path.join(d, "inst.png"), s["inst"])
                kw.update(inst_path=os.path.join(d, "inst.png"))
            fn = D.otf_cityscapes_eval_single
        else:
            write_img(os.path.join(d, "edge.png"), rgb_encode(s["edges"]))
            write_img(os.path.join(d, "seg.png"), s["seg"])
            kw.update(edge_path=os.path.join(d, "edge.png"), seg_path=os.path.join(d, "seg.png"), num_classes=len(s["edges"]))
            fn = D.sbd_eval_single if kind == "sbd" else D.cityscapes_eval_single
    kw.update(scale=s["scale"], max_dist=max_dist(kind, s), apply_thinning=s["thin"], apply_nms=s["nms"])

    def run(thresholds, **over):
        k = dict(kw)
        k.update(over)
        k["thresholds"] = thresholds
        return fn(k)

    run.__name__ = fn.__name__
    return run, kw


def expected(kind, s, thresholds):
    """(rows, ground truth) of a cityscapes, sbd or otf sample."""
    h, w = final_shape(kind, s)
    pred = ref.resize_nearest(s["pred"], w, h) / 255.0
    c = s["category"]
    if kind == "otf":
        lab = ref.resize_nearest(s["lab"], w, h)
        L = LABEL[c - 1]
        ign = (lab == 2) | (lab == 3)
        gt = np.zeros((h, w), bool)
        if (lab == L).any():
            gt = ref.class_edge(lab == L, ign, s["radius"])
            if s["inst"] is not None:
                inst = ref.resize_nearest(s["inst"], w, h)
                for i in np.unique(inst):
                    if i >= 24000 and i // 1000 == L:
                        gt = gt | ref.class_edge(inst == i, ign, s["radius"])
        seg = lab == L
    else:
        gt = ref.resize_nearest(s["edges"][c - 1], w, h)
        seg = ref.resize_nearest(s["seg"], w, h) == (c if kind == "sbd" else c - 1)
        if kind == "sbd":
            pred = pred.copy()
            inner = np.zeros((h, w), bool)
            inner[5:max(5, h - 5), 5:max(5, w - 5)] = True
            pred[~inner] = 0
    rows = evalref.expected(np.asarray(thresholds, float), pred, gt, max_dist(kind, s), s["thin"], fast_nms_ref if s["nms"] else None,
                            s["skip"], seg if s["kill"] else None, np.rint(pred * 255.0) * (1 / 255.0))
    return rows, gt, pred
