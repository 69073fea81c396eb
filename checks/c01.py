"""C01: correspond_pixels returns a valid one-to-one correspondence within tolerance."""
import math

import numpy as np
from hypothesis import strategies as st

from pyEdgeEval._lib import correspond_pixels
from vlib import gens as g
from vlib import ref
from vlib.harness import Sub

RULE = ("pairs of generated binary maps (noise of all densities, strokes, displaced copies, single rows/columns) in "
        "several dtypes and memory layouts, tolerance 0.3..12 px, outlier cost 1.01..1000; strips of up to 70000 pixels with a few edge pixels; non-trivial: at least one "
        "pixel of each map is set and at least one pair lies within tolerance")
ASSUMPTIONS = ["tolerances within 1e-9 of a pixel distance may be judged either way"]

# hardly more and hardly less than the distance of a pixel
NEAR = st.tuples(st.integers(1, 70), st.sampled_from([-1e-4, -1e-5, -1e-6, 1e-6, 1e-5, 1e-4])).map(lambda v: math.sqrt(v[0]) * (1 + v[1]))


@st.composite
def match_case(draw, hi=22):
    h, w = draw(g.dims(1, hi))
    a, b = draw(g.related_pair(h, w))
    d = draw(st.one_of(st.sampled_from([0.4, 1.0, 1.2, 1.5, 2.0, 2.3, 3.0, 4.5]), st.integers(3, 1200).map(lambda k: k / 100), NEAR))
    oc = draw(st.one_of(st.just(None), st.sampled_from([1.01, 1.5, 2.0, 10.0, 100.0, 1000.0])))
    return {"a": draw(g.valued(a)), "b": draw(g.valued(b)), "layout": [draw(st.sampled_from(["C", "C", "F", "strided", "neg"])) for _ in range(2)],
            "max_dist": d / math.hypot(h, w), "oc": oc}


def validity(t, a, b, m0, m1, max_dist):
    """The two maps describe one valid correspondence; returns the matched distances."""
    h, w = a.shape
    A, B = a != 0, b != 0
    tol = ref.tol_px((h, w), max_dist)
    for name, m in (("first", m0), ("second", m1)):
        t.check(isinstance(m, np.ndarray) and m.shape == (h, w), "the %s match map has shape %r, expected %r" % (name, getattr(m, "shape", None), (h, w)))
        t.check(bool(np.isfinite(m).all()) and bool((m == np.rint(m)).all()) and m.min(initial=0) >= 0 and m.max(initial=0) <= h * w,
                "the %s match map holds invalid positions" % name)
    t.check(not (m0[~A] != 0).any(), "a pixel that is no edge pixel of the first map is matched")
    t.check(not (m1[~B] != 0).any(), "a pixel that is no edge pixel of the second map is matched")
    dist = []
    for (s, o, what) in ((m0, m1, "first"), (m1, m0, "second")):
        for y, x in np.argwhere(s != 0):
            p = int(s[y, x]) - 1
            x2, y2 = p // h, p % h
            t.check(o[y2, x2] == x * h + y + 1, lambda: "pixel (%d,%d) of the %s map names (%d,%d), which does not name it back" % (y, x, what, y2, x2))
            dd = math.sqrt((x - x2) ** 2 + (y - y2) ** 2)
            t.check(dd <= tol + 1e-9, lambda: "matched pixels (%d,%d) and (%d,%d) are %.6f apart, tolerance %.6f" % (y, x, y2, x2, dd, tol))
            if what == "first":
                dist.append(dd)
    return dist


def check(case, t):
    a = g.relayout(case["a"], case["layout"][0])
    b = g.relayout(case["b"], case["layout"][1])
    a0, b0 = a.copy(), b.copy()
    kw = {} if case["oc"] is None else {"outlier_cost": case["oc"]}
    m0, m1, cost, oc = t.call(correspond_pixels, a, b, max_dist=case["max_dist"], **kw)
    t.eq_array(a, a0, "first input after the call")
    t.eq_array(b, b0, "second input after the call")
    dist = validity(t, a, b, m0, m1, case["max_dist"])
    h, w = a.shape
    tol = ref.tol_px((h, w), case["max_dist"])
    want_oc = (100.0 if case["oc"] is None else case["oc"]) * tol
    t.check(abs(oc - want_oc) <= 1e-9 * want_oc, lambda: "outlier cost %r, expected %r" % (oc, want_oc))
    na, nb = int((a != 0).sum()), int((b != 0).sum())
    k, n1, n2 = ref.max_matching(a, b, tol * (1 - 1e-9))
    if k > 0:
        un = na + nb - 2 * len(dist)
        want = sum(dist) + un * want_oc
        t.check(abs(cost - want) <= 1e-6 * max(1.0, abs(want)), lambda: "cost %r, expected %r (%d matched, %d unmatched)" % (cost, want, len(dist), un))
        t.check(len(dist) > 0, "nothing was matched although pairs are within tolerance")
    t.nontrivial(k > 0)
    t.label("matched", len(dist) > 0)
    t.label("unmatched left", na + nb > 2 * len(dist))
    t.label("more than 7 matchable", max(n1, n2) > 7)
    t.label("single row or column", 1 in (h, w))
    t.label("conflict (optimum below matchable)", k < min(n1, n2))


@st.composite
def reject_case(draw):
    h, w = draw(g.dims(1, 8))
    kind = draw(st.sampled_from(["shape", "max_dist", "outlier_cost"]))
    a = draw(g.bitmap(h, w))
    if kind == "shape":
        h2, w2 = draw(g.dims(1, 8))
        if (h2, w2) == (h, w):
            h2 += 1
        return {"kind": kind, "a": a, "b": draw(g.bitmap(h2, w2)), "v": None}
    b = draw(g.bitmap(h, w))
    v = draw(st.sampled_from([0, 0.0, -1.0, -1e-9, -5]) if kind == "max_dist" else st.sampled_from([1, 1.0, 0.5, 0, -3.0, 1 - 1e-9]))
    return {"kind": kind, "a": a, "b": b, "v": v}


def check_reject(case, t):
    kw = {} if case["v"] is None else {case["kind"]: case["v"]}
    t.raises(ValueError, correspond_pixels, case["a"], case["b"], **kw)
    t.nontrivial()
    t.label(case["kind"])


@st.composite
def long_case(draw):
    """Strips whose squared length needs more than 31 bits, given by their few edge pixels."""
    n = draw(st.one_of(st.integers(46341, 70000), st.integers(32768, 46340)))
    other = draw(st.integers(1, 2))
    pos = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=6))
    near = [min(n - 1, max(0, p + draw(st.integers(-6, 6)))) for p in pos]
    side = st.integers(0, other - 1)
    return {"n": n, "other": other, "wide": draw(st.booleans()), "a": [[p, draw(side)] for p in pos], "b": [[p, draw(side)] for p in near],
            "px": draw(st.integers(30, 900)) / 100}


def check_long(case, t):
    n, other = case["n"], case["other"]
    maps = []
    for key in "ab":
        m = np.zeros((n, other), dtype=np.uint8)
        for p, q in case[key]:
            m[p, q] = 1
        maps.append(np.ascontiguousarray(m.T) if case["wide"] else m)
    a, b = maps
    check({"a": a, "b": b, "layout": ["C", "C"], "max_dist": case["px"] / math.hypot(n, other), "oc": None}, t)


SUBS = [Sub("long", long_case, check_long, 40, 400), Sub("validity", match_case, check, 12000, 300000), Sub("reject", reject_case, check_reject, 400, 4000)]
