"""C16: label conversions are faithful per pixel."""
import numpy as np
from hypothesis import strategies as st

from pyEdgeEval.common.multi_label import add_ignore_pixel, convert_inst_seg
from pyEdgeEval.helpers.convert_sbd import convert_seg_label2train
from pyEdgeEval.utils import edge_label2trainId, mask2onehot, mask_label2trainId
from vlib import gens as g
from vlib.harness import Sub

RULE = ("label maps of 1x1 to 16x16 in several integer types, label lists and mappings in any order, with absent labels, labels beyond 8 bits and ids that collide "
        "with other labels, instance lists with repeated and absent categories, borders 0-12; non-trivial: at least two different values are mapped")
ASSUMPTIONS = []


@st.composite
def label_map(draw, hi=16, top=255):
    h, w = draw(g.dims(1, hi))
    pal = draw(st.lists(st.one_of(st.integers(0, min(12, top)), st.integers(0, top)), min_size=1, max_size=6))
    a = np.array(pal)[draw(g.blob_labels(h, w, len(pal)))]
    return a, pal


@st.composite
def conv_case(draw):
    dt = draw(st.sampled_from(["uint8", "uint8", "int64", "int32", "uint16", "int16"]))
    a, pal = draw(label_map(top=255 if dt == "uint8" else draw(st.sampled_from([255, 700, 33999 if dt != "int16" else 32767]))))
    if dt != "uint8" and draw(st.booleans()):  # values that agree in their last 8 bits
        far = pal[0] + 256 * draw(st.integers(1, 3)) if pal[0] < 30000 else pal[0] - 256
        a = np.where(draw(g.raw_bits(a.size)).reshape(a.shape) & (a == pal[0]), far, a)
        pal = pal + [far]
    if dt.startswith("int") and draw(st.booleans()):
        a = np.where(a == pal[-1], -1, a)
    lab = st.one_of(st.sampled_from(pal), st.integers(0, 34), st.sampled_from([-1, 255, 254]), st.sampled_from(pal).map(lambda v: v % 256))
    labels = draw(st.lists(lab, min_size=1, max_size=10))
    if draw(st.booleans()):
        labels = list(range(draw(st.integers(1, 34))))
    keys = draw(st.lists(lab, min_size=0, max_size=8, unique=True))
    vals = draw(st.lists(st.one_of(st.sampled_from(pal).map(lambda v: v % 256), st.integers(0, 20), st.integers(0, 254)), min_size=len(keys), max_size=len(keys)))
    return {"map": a.astype(dt), "labels": labels, "aslist": draw(st.booleans()), "keys": keys, "vals": vals, "chan": draw(st.booleans()),
            "bad": draw(st.sampled_from([1, 4, 0]))}


def check_conv(case, t):
    a = case["map"]
    keep = a.copy()
    labels = case["labels"] if case["aslist"] else tuple(case["labels"])
    oh = t.call(mask2onehot, a, labels)
    want = np.zeros((len(labels),) + a.shape, np.uint8)
    for i, v in enumerate(labels):
        want[i][a.astype(np.int64) == v] = 1
    t.eq_array(oh, want, "mask2onehot", dtype=np.uint8)
    m = dict(zip(case["keys"], case["vals"]))
    tr = np.full(a.shape, 255, np.uint8)
    for r in range(a.shape[0]):
        for c in range(a.shape[1]):
            tr[r, c] = m.get(int(a[r, c]), 255)
    t.eq_array(t.call(mask_label2trainId, a[:, :, None] if case["chan"] else a, dict(m)), tr, "mask_label2trainId", dtype=np.uint8)
    t.eq_array(t.call(convert_seg_label2train, a, dict(m)), tr, "convert_seg_label2train")
    t.eq_array(a, keep, "the label map after the conversions")
    shape = {1: (4,), 4: (2, 2, 1, 1), 0: ()}[case["bad"]]
    t.raises((ValueError, AssertionError), mask_label2trainId, np.zeros(shape, np.uint8), m)
    t.nontrivial(len(np.unique(tr)) > 1)
    t.label("train id equals another label", any(v in m for v in m.values()))


@st.composite
def edge_case(draw):
    h, w = draw(g.dims(1, 10))
    n = draw(st.integers(1, 34))
    keys = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=min(n, 20), unique=True))
    order = draw(st.permutations(range(len(keys))))
    e = draw(g.raw_bits(n * h * w)).reshape(n, h, w)
    return {"edge": e.astype(draw(st.sampled_from(["uint8", "bool"]))), "keys": keys, "order": list(order)}


def check_edge(case, t):
    e = case["edge"]
    keep = e.copy()
    want = np.zeros((len(case["keys"]),) + e.shape[1:], np.uint8)
    for k, v in zip(case["keys"], case["order"]):
        want[v] = e[k]
    t.eq_array(t.call(edge_label2trainId, e, dict(zip(case["keys"], case["order"]))), want, "edge_label2trainId", dtype=np.uint8)
    t.eq_array(e, keep, "the edges after the conversion")
    t.nontrivial(len(case["keys"]) > 1 and bool(want.any()))


@st.composite
def inst_case(draw):
    h, w = draw(g.dims(1, 14))
    n = draw(st.one_of(st.integers(0, 14), st.integers(0, 14), st.integers(11, 400)))
    cats = (draw(g.levels(n, draw(st.sampled_from([1, 2, 20])))) + 1).tolist()
    pres = set(cats)
    if pres and draw(st.booleans()):
        pres -= {draw(st.sampled_from(sorted(pres)))}
    pres |= set(draw(st.lists(st.integers(1, 20), max_size=3)))
    seg = draw(g.blob_labels(h, w, n + 1)) if draw(st.booleans()) else (draw(g.levels(h * w, min(n + 1, 256))) * max(1, (n + 1) // 256)).reshape(h, w) + draw(st.integers(0, n % 256))
    seg = np.minimum(seg, n)
    return {"seg": seg.astype(draw(st.sampled_from(["uint8", "uint16", "int32"] if n < 256 else ["uint16", "int32"]))), "cats": np.array(cats, draw(st.sampled_from(["uint8", "int64"]))),
            "present": np.array(draw(st.permutations(sorted(pres))), draw(st.sampled_from(["uint8", "int64"])))}


def check_inst(case, t):
    seg, cats, pres = case["seg"], case["cats"], case["present"]
    keep = seg.copy(), cats.copy(), pres.copy()
    got = t.call(convert_inst_seg, seg, cats, pres)
    want = np.zeros(seg.shape, np.int32)
    for i in range(len(cats)):
        c = int(cats[i])
        if c in [int(p) for p in pres]:
            want[seg == i + 1] = c * 1000 + int((cats[:i] == cats[i]).sum())
    t.eq_array(got, want, "convert_inst_seg", dtype=np.int32)
    for a, b in zip((seg, cats, pres), keep):
        t.eq_array(a, b, "an input of convert_inst_seg after the call")
    t.nontrivial(len(np.unique(want)) > 2)
    t.label("two instances of one category", len(set(cats.tolist())) < len(cats))
    t.label("over 255 instances", len(cats) > 255)
    t.label("instance number over 99", bool((want % 1000 > 99).any()))
    t.label("category not present", bool(set(cats.tolist()) - set(pres.tolist())))


@st.composite
def border_case(draw):
    h, w = draw(g.dims(1, 20))
    if draw(st.booleans()):
        h, w = draw(st.integers(9, 26)), draw(st.integers(9, 26))
    a = draw(g.levels(h * w, 22)).reshape(h, w).astype(draw(st.sampled_from(["uint8", "int32", "float64"])))
    c = {"a": a, "px": draw(st.sampled_from([None, 5, 5, 0, 1, 2, 3, 7, 12])), "id": draw(st.sampled_from([None, 0, 21, 255]))}
    return c


def check_border(case, t):
    a = case["a"]
    h, w = a.shape
    kw = {}
    if case["px"] is not None:
        kw["border_px"] = case["px"]
    if case["id"] is not None:
        kw["ignore_id"] = case["id"]
    p, v = kw.get("border_px", 5), kw.get("ignore_id", 0)
    want = a.copy()
    for y in range(h):
        for x in range(w):
            if min(x, y, h - 1 - y, w - 1 - x) < p:
                want[y, x] = v
    t.eq_array(t.call(add_ignore_pixel, a.copy(), **kw), want, "add_ignore_pixel", dtype=a.dtype)
    t.nontrivial(p > 0 and bool((want != a).any()) and min(h, w) > 2 * p)
    t.label("border covers everything", min(h, w) <= 2 * p)


SUBS = [
    Sub("labels", conv_case, check_conv, 6000, 120000),
    Sub("edges", edge_case, check_edge, 3000, 60000),
    Sub("instances", inst_case, check_inst, 5000, 100000),
    Sub("border", border_case, check_border, 4000, 80000),
]
