"""C28: the native code stays within its memory and arithmetic bounds (run under AddressSanitizer and UBSan, assertions on)."""
import math
import sys

import numpy as np
from hypothesis import strategies as st

from pyEdgeEval._lib import correspond_pixels, nms
from vlib import gens as g
from vlib.harness import Sub

FLAVOR = "asan"
ISOLATE = False
RULE = ("the extensions are rebuilt with AddressSanitizer, UndefinedBehaviorSanitizer (with float casts and divisions) and assertions enabled; "
        "images of 1x1 to 40x40 and long strips, all densities including empty and full maps, boolean/integer/float inputs with odd strides, "
        "tolerances from far below one pixel to beyond the diagonal, radius -1..50, border -1..100, any multiplier; non-trivial: both inputs "
        "hold a set pixel")
ASSUMPTIONS = ["contents are finite; outlier cost times tolerance stays below 20000 px (the solver's integer weights)",
               "reads of uninitialised memory are only seen through their effects (results are compared between two calls)"]


LAYOUT = st.sampled_from(["C", "C", "F", "strided", "neg"])


@st.composite
def shape(draw):
    k = draw(st.sampled_from(["small", "mid", "strip", "pixel", "wide"]))
    if k == "small":
        return draw(st.integers(1, 6)), draw(st.integers(1, 6))
    if k == "mid":
        return draw(st.integers(1, 24)), draw(st.integers(1, 24))
    if k == "pixel":
        return draw(st.sampled_from([(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (3, 3)]))
    n = draw(st.integers(1, 60 if k == "strip" else 40))
    m = draw(st.integers(1, 3 if k == "strip" else 10))
    return (n, m) if draw(st.booleans()) else (m, n)


@st.composite
def dressed(draw, a):
    """The same set pixels as another dtype, with arbitrary values."""
    k = draw(st.sampled_from(["bool", "uint8", "int32", "int64", "float32", "float64", "int8", "uint16"]))
    if k == "bool":
        return a.astype(bool)
    v = draw(g.levels(a.size, 100)).reshape(a.shape) + 1
    if k in ("float32", "float64"):
        return np.where(a, v / 37.0, 0).astype(k)
    return np.where(a, v, 0).astype(k)


@st.composite
def match_case(draw):
    h, w = draw(shape())
    if draw(st.integers(0, 3)) == 0:
        a, b = draw(g.bitmap(h, w)), draw(g.bitmap(h, w))
    else:
        a, b = draw(g.related_pair(h, w))
    diag = math.hypot(h, w)
    kind = draw(st.sampled_from(["px", "px", "px", "frac", "edge"]))
    if kind == "px":
        md = draw(st.sampled_from([0.01, 0.3, 0.5, 1.0, 1.2, math.sqrt(2), 2.0, 2.5, 3.0, 5.0, 8.0])) / diag
    elif kind == "frac":
        md = draw(st.sampled_from([0.0025, 0.0075, 0.011, 0.02, 0.1, 0.5, 1.0]))
    else:
        md = draw(st.sampled_from([1e-12, 1e-6, 1.0, 1.5, 3.0]))
    if a.sum() * b.sum() * min(1.0, (md * diag) ** 2 * 3 / (h * w)) > 60000:
        md = min(md, 3.0 / diag)
    oc = draw(st.sampled_from([None, None, 1.0000001, 1.01, 2, 100, 1000.0]))
    if (oc or 100.0) * md * diag >= 20000:
        oc = 2
    return {"a": draw(dressed(a)), "b": draw(dressed(b)), "la": draw(LAYOUT), "lb": draw(LAYOUT), "md": md, "oc": oc}


def check_match(case, t):
    a, b = g.relayout(case["a"], case["la"]), g.relayout(case["b"], case["lb"])
    sys.stdout.flush()
    kw = {} if case["oc"] is None else {"outlier_cost": case["oc"]}
    for rep in range(2):
        m0, m1, cost, oc = t.call(correspond_pixels, a, b, max_dist=case["md"], **kw)
        for m in (m0, m1):
            t.check(isinstance(m, np.ndarray) and m.shape == a.shape, lambda: "a match map of shape %r for images of shape %r" % (getattr(m, "shape", None), a.shape))
            t.check(bool(np.isfinite(m).all()) and m.min() >= 0 and m.max() <= m.size, "a match map holds values that are no positions")
        t.check(int((m0 != 0).sum()) == int((m1 != 0).sum()), "the maps have different numbers of matches")
        t.check(math.isfinite(cost) and cost >= 0 and math.isfinite(oc), "the cost %r is not a number" % cost)
    t.nontrivial(bool((a != 0).any()) and bool((b != 0).any()))
    t.label("tolerance beyond the image", case["md"] >= 1)
    t.label("single row or column", 1 in a.shape)
    t.label("full map", bool((a != 0).all()))
    t.label("nothing matched", not (m0 != 0).any())


@st.composite
def nms_case(draw):
    h, w = draw(shape())
    kind = draw(st.sampled_from(["bitmap", "noise", "noise", "big"]))
    if kind == "bitmap":
        e = draw(dressed(draw(g.bitmap(h, w))))
    else:
        e = draw(g.levels(h * w, 256)).reshape(h, w)
        if kind == "big":
            e = (e - 128) * draw(st.sampled_from([1.0, 1e-300, 1e9, 1e300]))
        e = e.astype(draw(st.sampled_from(["uint8", "float32", "float64", "int64"]))) if kind == "noise" else e
    ok = draw(st.sampled_from(["angles", "axis", "wild", "const", "int"]))
    base = draw(g.levels(h * w, 256)).reshape(h, w)
    if ok == "angles":
        o = base * (2 * np.pi / 256) - np.pi
    elif ok == "axis":
        o = (base % 8) * (np.pi / 4)
    elif ok == "wild":
        o = (base - 128) * draw(st.sampled_from([1.0, 1e6, 1e17, 1e-17]))
    elif ok == "const":
        o = np.full((h, w), draw(st.integers(-700, 700)) / 100.0)
    else:
        o = (base % 7).astype(draw(st.sampled_from(["int64", "uint8", "int8"])))
    return {"e": e, "o": o, "le": draw(LAYOUT), "lo": draw(LAYOUT),
            "r": draw(st.one_of(st.integers(-1, 6), st.sampled_from([10, 50]), st.sampled_from([1.0, 5.0, np.int64(3)]))),
            "s": draw(st.one_of(st.integers(-1, 12), st.sampled_from([50, 100, 2 ** 31 - 1]), st.sampled_from([5.0, np.int64(3)]))),
            "m": draw(st.sampled_from([1.01, 1.01, 1.0, 0.0, -1.0, 1.2, 1e-30, 1e6, 1]))}


def check_nms(case, t):
    e, o = g.relayout(case["e"], case["le"]), g.relayout(case["o"], case["lo"])
    first = None
    for rep in range(2):
        out = t.call(nms, e, o, r=case["r"], s=case["s"], m=case["m"])
        t.check(isinstance(out, np.ndarray) and out.shape == e.shape, lambda: "a result of shape %r for an image of shape %r" % (getattr(out, "shape", None), e.shape))
        f = e.astype(np.float64)
        t.check(bool(np.isfinite(out).all()), "the result of finite inputs is not finite")
        t.check(bool((np.abs(out) <= np.abs(f)).all()), "a response grew")
        if first is not None:
            t.eq_array(out, first, "the second call's result")
        first = out
    t.nontrivial(bool((e != 0).any()) and out.size > 1)
    t.label("single row or column", 1 in e.shape)
    t.label("border covers the image", case["s"] >= min(e.shape) // 2)
    t.label("radius beyond the image", case["r"] >= max(e.shape))


SUBS = [Sub("correspond", match_case, check_match, 20000, 200000), Sub("nms", nms_case, check_nms, 16000, 200000)]
