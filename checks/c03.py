"""C03: thinning is the Guo-Hall two-subiteration fixpoint."""
import numpy as np
from hypothesis import strategies as st

from pyEdgeEval.preprocess.thin import binary_thin
from pyEdgeEval.preprocess.thin.bwmorph_thin import bwmorph_thin
from vlib import gens as g
from vlib import ref
from vlib.harness import Sub

RULE = ("binary maps of 1x1 to 60x60, narrow strips and enlarged maps up to 150x150, filled regions of photographs up to 321x481 (noise, strokes, discs, rings, full) with non-zero values of several types and layouts, "
        "with and without an iteration bound; non-trivial: the reference removes at least one pixel")
ASSUMPTIONS = []


@st.composite
def thin_case(draw):
    h, w = draw(g.dims(1, draw(st.sampled_from([6, 14, 30]))))
    a = draw(st.one_of(g.bitmap(h, w), g.strokes(h, w), g.noise(h, w)))
    return {"x": draw(g.valued(a)), "layout": draw(st.sampled_from(["C", "F", "strided", "neg"])),
            "max_iter": draw(st.sampled_from([None, None, None, 0, 1, 2, 3, 5]))}


@st.composite
def big_case(draw):
    h, w = draw(st.integers(20, 60)), draw(st.integers(20, 60))
    a = draw(st.one_of(g.noise(h, w), g.strokes(h, w, 12)))
    if draw(st.booleans()):
        a = a ^ draw(g.noise(h, w))
    return {"x": a, "layout": "C", "max_iter": draw(st.sampled_from([None, None, 1, 2, 7]))}


@st.composite
def thick_case(draw):
    """Thick shapes, which take many passes."""
    h, w = draw(st.integers(1, 14)), draw(st.integers(1, 14))
    a = draw(g.grown(draw(st.one_of(g.strokes(h, w), g.bitmap(h, w))), 150, 24))
    return {"x": a, "layout": "C", "max_iter": draw(st.sampled_from([None, None, None, 9, 16, 30]))}


@st.composite
def giant_case(draw):
    """Whole regions at the size of photographs: an image predicted almost everywhere needs some 160 passes."""
    h, w = draw(st.integers(100, 321)), draw(st.integers(100, 481))
    yy, xx = np.mgrid[:h, :w]
    a = np.zeros((h, w), bool)
    for _ in range(draw(st.integers(1, 3))):
        cy, cx, ry, rx = draw(st.integers(0, h)), draw(st.integers(0, w)), draw(st.integers(40, h)), draw(st.integers(40, w))
        if draw(st.booleans()):
            a |= (abs(yy - cy) <= ry) & (abs(xx - cx) <= rx)
        else:
            a |= ((yy - cy) / ry) ** 2 + ((xx - cx) / rx) ** 2 <= 1
    if draw(st.booleans()):
        r = np.random.default_rng(draw(st.integers(0, 10**6)))
        a &= r.random((h, w)) > draw(st.sampled_from([0.0002, 0.002]))
    return {"x": a, "layout": "C", "max_iter": draw(st.sampled_from([None, None, None, 50]))}


def check(case, t):
    x = g.relayout(case["x"], case["layout"])
    keep = x.copy()
    n = case["max_iter"]
    want = ref.thin(x, n)
    got = t.call(binary_thin, x) if n is None else t.call(binary_thin, x, max_iter=n)
    t.eq_array(x, keep, "input after thinning")
    if n == 0:
        # no pass at all: the foreground stays as it is
        t.eq_array(np.asarray(got) != 0, want, "foreground of binary_thin(max_iter=0)", dtype=bool)
        t.nontrivial(bool((ref.thin(x) != want).any()))
        t.label("no pass")
        return
    t.eq_array(got, want, "binary_thin(max_iter=%r)" % n, dtype=bool)
    if n is None:
        t.eq_array(t.call(binary_thin, got), want, "thinning the thinned map")
    x01 = (x != 0)
    for dt in (np.uint8, bool):
        y = x01.astype(dt)
        got = t.call(bwmorph_thin, y) if n is None else t.call(bwmorph_thin, y, n_iter=n)
        t.eq_array(y, x01.astype(dt), "input after bwmorph_thin")
        t.eq_array(got, want, "bwmorph_thin(n_iter=%r)" % n, dtype=bool)
    t.nontrivial(bool((want != x01).any()))
    t.label("bounded", n is not None)
    t.label("bound is reached", n is not None and bool((ref.thin(x) != want).any()))
    t.label("touches the border", bool(x01[0].any() or x01[-1].any() or x01[:, 0].any() or x01[:, -1].any()))


@st.composite
def reject_case(draw):
    kind = draw(st.sampled_from(["values", "ndim", "n_iter"]))
    h, w = draw(g.dims(1, 6))
    a = draw(g.noise(h, w)).astype(draw(st.sampled_from(["uint8", "int32", "float64"])))
    n = None
    if kind == "values":
        a[draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1))] = draw(st.sampled_from([2, 255, 3] if a.dtype == np.uint8 else [2, 255, -1, 7]))
    elif kind == "ndim":
        a = draw(st.sampled_from([a.ravel(), a[None], a[..., None]]))
    else:
        n = draw(st.sampled_from([0, -1, -5]))
    return {"a": a, "n": n, "kind": kind}


def check_reject(case, t):
    t.raises(ValueError, bwmorph_thin, case["a"], n_iter=case["n"])
    t.nontrivial()
    t.label(case["kind"])


SUBS = [Sub("thin", thin_case, check, 15000, 300000), Sub("big", big_case, check, 2000, 40000), Sub("thick", thick_case, check, 800, 20000), Sub("giant", giant_case, check, 60, 1500), Sub("reject", reject_case, check_reject, 400, 4000)]
