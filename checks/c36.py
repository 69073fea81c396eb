"""C36: routines leave what they are given alone and their results depend on the values given only."""
import os
import pickle
import random
import traceback

import numpy as np
from hypothesis import strategies as st

from pyEdgeEval._lib.correspond_pixels import correspond_pixels
from pyEdgeEval._lib.nms import nms
from pyEdgeEval.common import binary_label as BL
from pyEdgeEval.common import metrics as ME
from pyEdgeEval.common import multi_label as ML
from pyEdgeEval.common.multi_label.options import kill_internal_prediction
from pyEdgeEval.common.utils import check_thresholds
from pyEdgeEval.edge_tools import InstanceMask2Edge, Mask2Edge, loop_instance_mask2edge, loop_mask2edge
from pyEdgeEval.helpers.convert_sbd import convert_seg_label2train
from pyEdgeEval.preprocess import binary_thin, bwmorph_thin, fast_nms
from pyEdgeEval.preprocess.nms.toolbox import conv_tri, grad2
from pyEdgeEval import utils as U
from vlib import gens as g
from vlib.harness import Sub

RULE = ("histories of 2-7 calls of 33 routines on arguments in five memory layouts (C, Fortran, strided, reversed, read-only), the results overwritten after each call, then every call again in another layout, "
        "compared with the same call alone in a fresh process; non-trivial: a routine is called twice with different arguments of the same shape, or a result is not constant")
ASSUMPTIONS = ["add_ignore_pixel works in place, as its callers use it, and is left out", "matchings of at most seven pixels, so that the counts do not depend on the random connections (C02)"]
ISOLATE = True
LAYOUTS = ["C", "F", "strided", "neg", "ro"]


def lay(a, kind):
    if kind == "F":
        return np.array(a, order="F")
    if kind == "strided":
        b = np.zeros(tuple(2 * n for n in a.shape), a.dtype)
        v = b[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if kind == "neg":
        ix = tuple(slice(None, None, -1) for _ in a.shape)
        return np.array(a[ix], order="C")[ix]
    b = np.array(a, order="C")
    if kind == "ro":
        b.flags.writeable = False
    return b


def arrange(v, kind):
    if isinstance(v, np.ndarray):
        return lay(v, kind)
    if isinstance(v, list):
        return [arrange(x, kind) for x in v]
    if isinstance(v, dict):
        return {k: arrange(x, kind) for k, x in v.items()}
    return v


def plain(v):
    """A copy of a result that can be compared."""
    if isinstance(v, np.ndarray):
        return np.array(v, order="C")
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def same(a, b, tol=0.0):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if tol and a.dtype.kind == "f":
            return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
        return bool(np.array_equal(a, b, equal_nan=a.dtype.kind == "f"))
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * max(1, abs(a))
    return a == b


def scribble(v):
    if isinstance(v, np.ndarray):
        if v.flags.writeable and v.size:
            v[...] = np.where(v == 0, 1, 0).astype(v.dtype)
    elif isinstance(v, list):
        for x in v:
            scribble(x)
        v.append("scribble")
    elif isinstance(v, tuple):
        for x in v:
            scribble(x)
    elif isinstance(v, dict):
        for x in v.values():
            scribble(x)
        v["scribble"] = 1


# the routines: generator of keyword arguments, call ------------------------
@st.composite
def binmap(draw, h, w, dtypes=("uint8", "bool", "float64", "int64")):
    return draw(g.bitmap(h, w)).astype(draw(st.sampled_from(list(dtypes))))


@st.composite
def gray(draw, h, w):
    a = draw(g.pred_uint8(h, w)).astype(float) / 255
    return a.astype(draw(st.sampled_from(["float64", "float32"])))


@st.composite
def planes(draw, h, w, n=None):
    n = n or draw(st.integers(1, 6))
    return np.stack([draw(g.bitmap(h, w)) for _ in range(n)]).astype(np.uint8)


@st.composite
def onehots(draw, h, w):
    k = draw(st.integers(2, 5))
    lab = draw(g.blob_labels(h, w, k))
    return np.stack([lab == i for i in range(k)]).astype(np.uint8)


@st.composite
def d_match(draw, h, w):
    return {"bmap1": draw(g.sparse_points(h, w, 7)).astype(np.uint8), "bmap2": draw(g.sparse_points(h, w, 7)).astype(draw(st.sampled_from(["uint8", "float64"]))), "max_dist": draw(st.sampled_from([0.05, 0.2, 0.01]))}


def r_match(k):
    m1, m2, cost, oc = correspond_pixels(k["bmap1"], k["bmap2"], max_dist=k["max_dist"])
    return m1, m2, [int((m1 > 0).sum()), int((m2 > 0).sum()), float(oc)]


@st.composite
def d_thr(draw, h, w):
    return {"thresholds": np.array(draw(st.sampled_from([[0.5], [0.2, 0.7], [0.9, 0.1, 0.4]]))), "pred": (draw(g.pred_uint8(h, w)).astype(float) / 255).astype(draw(st.sampled_from(["float64", "float64", "float32"]))), "gt": draw(g.sparse_points(h, w, 7)).astype(np.uint8),
            "gt_seg": draw(g.bitmap(h, w)).astype(bool), "max_dist": draw(st.sampled_from([0.05, 0.2])), "apply_thinning": draw(st.booleans()), "kill_internal": draw(st.booleans()), "skip_if_nonexistent": draw(st.booleans()),
            "apply_nms": min(h, w) > 1 and draw(st.booleans())}


def ml_thr(k):
    return ML.evaluate_boundaries_threshold(**k)


def bl_thr(k):
    return BL.evaluate_boundaries_threshold(**{x: v for x, v in k.items() if x in ("thresholds", "pred", "gt", "max_dist", "apply_thinning", "apply_nms")})


@st.composite
def d_multi(draw, h, w):
    k = draw(d_thr(h, w))
    del k["gt"]
    k["gts"] = [draw(g.sparse_points(h, w, 7)).astype(np.uint8) for _ in range(draw(st.integers(1, 3)))]
    return {x: k[x] for x in ("thresholds", "pred", "gts", "max_dist", "apply_thinning", "apply_nms")}


def multi(k):
    r = BL.evaluate_boundaries_threshold_multiple_gts(**k)
    return r[0], r[1], r[3]  # which predicted pixels are matched to any annotation may vary


@st.composite
def d_metrics(draw, h, w):
    n, k = draw(st.integers(1, 4)), draw(st.integers(1, 5))
    sr = [draw(st.integers(0, 30)) for _ in range(n)]
    sp = [sorted((draw(st.integers(0, 30)) for _ in range(k)), reverse=True) for _ in range(n)]
    return {"samples": [{"name": "s%d" % i, "x": [1]} for i in range(n)], "counts": {"s%d" % i: [np.array([min(sr[i], v // 2) for v in sp[i]], float), np.full(k, float(sr[i])), np.array([v // 3 for v in sp[i]], float), np.array(sp[i], float)] for i in range(n)},
            "thresholds": draw(st.sampled_from(["list", "array"])), "k": k, "ml": draw(st.booleans())}


def metrics(k):
    thr = [(i + 1) / (k["k"] + 1) for i in range(k["k"])]
    thr = np.array(thr) if k["thresholds"] == "array" else thr
    keep = list(thr)
    import contextlib
    import io

    with contextlib.redirect_stdout(io.StringIO()):
        r = (ML if k["ml"] else BL).calculate_metrics(lambda s: tuple(k["counts"][s["name"]]), thr, k["samples"], nproc=1)
    assert list(thr) == keep, "the thresholds were changed"
    return r


def transforms(k):
    """A transform keeps its own settings while others are made and used."""
    def make(i):
        kw = dict(labelIds=[0, 1, 2, 3], ignore_indices=k["ign"][i], radius=k["radius"][i], label2trainId=k["tr"][i])
        if k["inst"][i]:
            o = InstanceMask2Edge(inst_labelIds=k["iids"][i], **kw)
            return lambda: o(mask=k["mask"], inst_mask=k["num"].astype(np.int32))
        o = Mask2Edge(**kw)
        return lambda: o(mask=k["mask"])

    first = make(0)
    a = plain(first())
    second = make(1)
    b = plain(second())
    a2, b2 = first(), second()
    assert same(plain(a2), a), "a transform gives another result after a second one was made"
    assert same(plain(b2), b), "a transform gives another result after another one was used"
    return [a2, b2]


def const(**kw):
    return st.fixed_dictionaries({k: v if hasattr(v, "example") else st.just(v) for k, v in kw.items()})


SIMPLE = {
    "correspond_pixels": (d_match, r_match),
    "binary_thin": (lambda h, w: const(image=binmap(h, w, ("uint8", "bool", "float64"))), lambda k: binary_thin(k["image"])),
    "bwmorph_thin": (lambda h, w: const(image=binmap(h, w, ("uint8", "bool", "float64")), n=st.sampled_from([None, 1, 2])), lambda k: bwmorph_thin(k["image"], k["n"])),
    "fast_nms": (lambda h, w: const(img=gray(max(h, 2), max(w, 2)), s=st.sampled_from([0, 5]), half=st.booleans(), u8=st.booleans()), lambda k: fast_nms(k["img"], r=1, s=k["s"], m=1.01, half_prec=k["half"], return_as_uint8=k["u8"])),
    "fast_nms8": (lambda h, w: const(img=g.pred_uint8(max(h, 2), max(w, 2))), lambda k: fast_nms(k["img"])),
    "nms": (lambda h, w: const(edge=gray(h, w), ori=gray(h, w), r=st.integers(0, 3)), lambda k: nms(k["edge"], k["ori"], r=k["r"])),
    "conv_tri": (lambda h, w: const(image=gray(h, w), r=st.sampled_from([1, 4, 0.5]), s=st.sampled_from([1, 2])), lambda k: conv_tri(k["image"], k["r"], k["s"])),
    "grad2": (lambda h, w: const(image=gray(max(h, 2), max(w, 2))), lambda k: grad2(k["image"])),
    "mask2bdry": (lambda h, w: const(mask=binmap(h, w, ("uint8",)), ignore=binmap(h, w, ("uint8",)), radius=st.integers(1, 3), cv=st.booleans()), lambda k: U.mask2bdry(mask=k["mask"], ignore_mask=k["ignore"], radius=k["radius"], use_cv2=k["cv"])),
    "loop_mask2edge": (lambda h, w: const(mask=onehots(h, w), ign=st.sampled_from([[], [0], [1, 0]]), radius=st.integers(1, 3), thin=st.booleans()), lambda k: loop_mask2edge(mask=k["mask"], ignore_indices=k["ign"], radius=k["radius"], thin=k["thin"])),
    "loop_instance_mask2edge": (lambda h, w: const(mask=onehots(h, w), inst=g.blob_labels(h, w, 3), ids=st.sampled_from([[1], [3, 1]]), radius=st.integers(1, 3)),
                                lambda k: loop_instance_mask2edge(mask=k["mask"], inst_mask=(k["inst"].astype(np.int32) + 1000), inst_labelIds=k["ids"], ignore_indices=[], radius=k["radius"])),
    "Mask2Edge": (lambda h, w: const(mask=g.blob_labels(h, w, 4), ids=st.sampled_from([[0, 1, 2, 3]]), ign=st.sampled_from([[], [2]]), tr=st.sampled_from([None, {1: 0, 3: 1}])),
                  lambda k: Mask2Edge(labelIds=k["ids"], ignore_indices=k["ign"], label2trainId=k["tr"])(mask=k["mask"])),
    "InstanceMask2Edge": (lambda h, w: const(mask=g.blob_labels(h, w, 4), inst=g.blob_labels(h, w, 3), ids=st.sampled_from([[0, 1, 2, 3]]), iids=st.sampled_from([[3, 1], [2]]), ign=st.sampled_from([[], [0]])),
                          lambda k: InstanceMask2Edge(labelIds=k["ids"], inst_labelIds=k["iids"], ignore_indices=k["ign"])(mask=k["mask"], inst_mask=k["inst"].astype(np.int32))),
    "two transforms": (lambda h, w: const(mask=g.blob_labels(h, w, 4), num=g.blob_labels(h, w, 3), **{x: st.lists(st.sampled_from(v), min_size=2, max_size=2) for x, v in
                                             dict(inst=[False, True], radius=[1, 2, 3], ign=[[], [2], [1, 0]], iids=[[3, 1], [2]], tr=[None, {1: 0, 3: 1}, {0: 0}]).items()}), transforms),
    "default_multilabel_encoding": (lambda h, w: const(e=planes(h, w)), lambda k: ML.default_multilabel_encoding(k["e"])),
    "rgb_multilabel_encoding": (lambda h, w: const(e=planes(h, w)), lambda k: ML.rgb_multilabel_encoding(k["e"])),
    "decode_png": (lambda h, w: const(a=planes(h, w, 3)), lambda k: ML.decode_png(k["a"].transpose(1, 2, 0), 5)),
    "decode_tif": (lambda h, w: const(a=g.blob_labels(h, w, 9)), lambda k: ML.decode_tif(k["a"].astype(np.int32), 5)),
    "mask2onehot": (lambda h, w: const(m=g.blob_labels(h, w, 5), ids=st.sampled_from([[0, 3], [4, 1, 2]])), lambda k: U.mask2onehot(k["m"], k["ids"])),
    "edge_multilabel2binary": (lambda h, w: const(e=planes(h, w)), lambda k: U.edge_multilabel2binary(k["e"])),
    "edge_onehot2multilabel": (lambda h, w: const(e=planes(h, w)), lambda k: U.edge_onehot2multilabel(k["e"])),
    "mask_label2trainId": (lambda h, w: const(m=g.blob_labels(h, w, 5), tr=st.sampled_from([{1: 0, 3: 1}, {4: 2, 2: 0}, {-1: 255, 1: 0, 2: 0}])), lambda k: U.mask_label2trainId(k["m"], k["tr"])),
    "edge_label2trainId": (lambda h, w: const(e=planes(h, w, 5), tr=st.sampled_from([{1: 0, 3: 1}, {4: 1, 2: 0}])), lambda k: U.edge_label2trainId(k["e"], k["tr"])),
    "convert_seg_label2train": (lambda h, w: const(m=g.blob_labels(h, w, 5), tr=st.sampled_from([{1: 0, 3: 1}, {4: 2, 2: 0}, {-1: 255, 1: 0, 2: 0}])), lambda k: convert_seg_label2train(k["m"], k["tr"])),
    "convert_inst_seg": (lambda h, w: const(m=g.blob_labels(h, w, 5), cats=st.sampled_from([[7, 7, 12, 3], [1, 2, 1, 1]]), present=st.sampled_from([[7, 3], [1, 2, 12]])), lambda k: ML.convert_inst_seg(k["m"], k["cats"], k["present"])),
    "kill_internal_prediction": (lambda h, w: const(pred=binmap(h, w, ("bool", "uint8", "float64")), gt=binmap(h, w, ("uint8",)), seg=binmap(h, w, ("bool",)), d=st.sampled_from([0.02, 0.1])), lambda k: kill_internal_prediction(k["pred"], k["gt"], k["seg"], k["d"])),
    "evaluate (multi-label)": (d_thr, ml_thr),
    "evaluate (binary)": (d_thr, bl_thr),
    "evaluate (several annotations)": (d_multi, multi),
    "calculate_metrics": (d_metrics, metrics),
    "check_thresholds": (lambda h, w: const(t=st.one_of(st.sampled_from([3, 0.5, [0.1, 0.7], [0.7, 0.1], 1]), st.sampled_from([[0.3], [0.8, 0.2, 0.2], [0.1, 0.9]]).map(np.array))), lambda k: check_thresholds(k["t"])),
    "compute_rec_prec_f1": (lambda h, w: const(a=g.levels(6, 9), b=g.levels(6, 9)), lambda k: ME.compute_rec_prec_f1(np.minimum(k["a"], k["b"]).astype(float), k["b"].astype(float), k["a"].astype(float), (k["a"] + 1).astype(float))),
    "interpolated_max_scores": (lambda h, w: const(r=gray(1, 5), p=gray(1, 5)), lambda k: ME.interpolated_max_scores(np.linspace(0.1, 0.9, 5), k["r"][0], k["p"][0])),
}
TOL = {"fast_nms": 0, "conv_tri": 1e-12, "grad2": 0}
NAMES = sorted(SIMPLE)


@st.composite
def history(draw):
    h, w = draw(g.dims(1, draw(st.sampled_from([4, 8, 16])), strip=False))
    few = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=3, unique=True))
    steps = []
    for _ in range(draw(st.integers(2, 7))):
        name = draw(st.sampled_from(few))
        hh, ww = (h, w) if draw(st.integers(0, 3)) else draw(g.dims(1, 8, strip=False))
        args = draw(SIMPLE[name][0](hh, ww))
        steps.append([name, args, draw(st.sampled_from(LAYOUTS)), draw(st.sampled_from(LAYOUTS))])
    return {"steps": steps}


def alone(name, args):
    """The result of a call in a process of its own."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            try:
                out = ("ok", plain(judged(name, SIMPLE[name][1](arrange(args, "C")))))
            except Exception as e:
                out = ("error", type(e).__name__ + ": " + str(e) + "\n" + traceback.format_exc(limit=-2))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("error", "the process died")


def judged(name, res):
    return res[2] if name == "correspond_pixels" else res


def surroundings():
    s = np.random.get_state()
    return {"cwd": os.getcwd(), "environ": dict(os.environ), "errors": dict(np.geterr()), "random": hash(random.getstate()), "np.random": (s[1].tobytes(), s[2])}


def check(case, t):
    steps = case["steps"]
    base = [alone(n, a) for n, a, _, _ in steps]
    for (n, a, _, _), (kind, v) in zip(steps, base):
        t.check(kind == "ok", lambda: "%s failed: %s" % (n, v))
    # Hypothesis seeds the generators with 0, as a routine might
    np.random.seed(8731)
    random.seed(8731)
    around = surroundings()

    def run(i, kind, when):
        name, args, _, _ = steps[i]
        given = arrange(args, kind)
        res = t.call(SIMPLE[name][1], given)
        t.check(same(given, args), lambda: "%s changed its arguments (%s layout)" % (name, kind))
        got = plain(judged(name, res))
        tol = TOL.get(name, 0)
        t.check(same(got, base[i][1], tol), lambda: "%s: %s, %s layout, the result differs from that of the call alone" % (name, when, kind))
        if name != "calculate_metrics" and not (name == "check_thresholds" and isinstance(args["t"], np.ndarray)):
            scribble(res)
        t.check(same(args, keep[i]), "the case was changed")

    keep = [plain(s[1]) for s in steps]
    for i, s in enumerate(steps):
        run(i, s[2], "call %d" % i)
    for i in reversed(range(len(steps))):
        run(i, steps[i][3], "call %d again" % i)
    now = surroundings()
    for k in around:
        t.check(now[k] == around[k], lambda: "the calls changed the process: %s" % k)
    names = [s[0] for s in steps]
    t.nontrivial(len(set(names)) < len(names))
    for n in set(names):
        t.label(n)


SUBS = [Sub("history", history, check, 4000, 80000)]
