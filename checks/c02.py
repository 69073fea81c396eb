"""C02: correspond_pixels is optimal."""
import math

import numpy as np
from hypothesis import strategies as st

from pyEdgeEval._lib import correspond_pixels
from vlib import gens as g
from vlib import ref
from vlib.harness import Sub

RULE = ("small maps: at most 7 matchable pixels per side by construction, on canvases up to 40x40 with extra unmatchable "
        "pixels; far: tolerances of 6 to 60 pixels; boundary: pairs exactly as far apart as the tolerance; large maps: noise, strokes and displaced copies up to 30x30; non-trivial: some pair is within tolerance "
        "(small: and the optimum is not simply every pixel with its coincident partner)")
ASSUMPTIONS = ["scipy's bipartite matching and linear sum assignment are correct",
               "on maps with more than 7 matchable pixels the best of 40 calls reaches the optimum for up to 60 matchable pixels, and one call loses at most 6 + 4% of the matches (measured: at most about 1%)"]


def count(t, a, b, md):
    m0, m1, cost, oc = t.call(correspond_pixels, a, b, max_dist=md)
    n = int((m0 != 0).sum())
    t.check(n == int((m1 != 0).sum()), "the two match maps hold different numbers of matches")
    return n, m0, cost


def icost(m0):
    h = m0.shape[0]
    c = 0
    for y, x in np.argwhere(m0 != 0):
        p = int(m0[y, x]) - 1
        c += int(np.rint(100 * math.sqrt((x - p // h) ** 2 + (y - p % h) ** 2)))
    return c


DISTS = [0.5, 1.0, 1.2, 1.5, 2.1, 2.3, 2.9, 3.7, 5.1, 7.4, 11.3]


@st.composite
def exact_case(draw):
    """Pixels exactly as far apart as the tolerance, or just beyond."""
    h, w, md = draw(st.sampled_from(ref.EXACT))
    a, b = np.zeros((h, w), bool), np.zeros((h, w), bool)
    steps = [(0, 5), (5, 0), (3, 4), (4, 3), (3, -4), (4, -3), (1, 5), (5, 1), (4, 4), (0, 4), (0, 0)]
    for _ in range(draw(st.integers(1, 4))):
        y, x = draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1))
        dy, dx = draw(st.sampled_from(steps))
        if draw(st.booleans()):
            dy, dx = -dy, -dx
        a[y, x] = True
        if 0 <= y + dy < h and 0 <= x + dx < w:
            b[y + dy, x + dx] = True
    if draw(st.booleans()):
        a, b = b, a
    return {"a": a, "b": b, "max_dist": md, "rel": draw(st.sampled_from(["swap", "transpose", "flipud", "fliplr"]))}


@st.composite
def small_case(draw):
    """Up to 7 pixels per map, crowded into clusters so that pixels compete for partners."""
    h, w = draw(st.sampled_from([(1, 9), (9, 1), (4, 4), (6, 6), (8, 5), (12, 12), (7, 30), (40, 40), (3, 60)]))
    a, b = np.zeros((h, w), bool), np.zeros((h, w), bool)
    nclusters = draw(st.sampled_from([1, 1, 2, 3]))
    for i in range(nclusters):
        cy, cx = draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1))
        span = draw(st.sampled_from([1, 2, 3, 5]))
        na = draw(st.sampled_from([2, 1, 3, 4, 5, 7]))
        nb = draw(st.sampled_from([2, 1, 3, 4, 5, 7]))
        for m, n in ((a, na), (b, nb)):
            for _ in range(n):
                y = min(max(cy + draw(st.integers(-span, span)), 0), h - 1)
                x = min(max(cx + draw(st.integers(-span, span)), 0), w - 1)
                if m.sum() < 7:
                    m[y, x] = True
    d = draw(st.sampled_from(DISTS))
    if draw(st.booleans()):  # pixels without a partner do not count
        extra = draw(g.noise(h, w))
        a |= extra & (ref.dist_to(b) > d + 1e-6)
        b |= draw(g.noise(h, w)) & (ref.dist_to(a) > d + 1e-6)
    return {"a": a, "b": b, "max_dist": d / math.hypot(h, w),
            "rel": draw(st.sampled_from(["swap", "transpose", "flipud", "fliplr", "pad"]))}


def check_small(case, t):
    a, b, md = case["a"], case["b"], case["max_dist"]
    d = ref.tol_px(a.shape, md)
    if ref.tol_ambiguous(d) and not ref.exact(a.shape, md):
        return
    pa, pb, dist = ref.pairs_within(a, b, d)
    n, m0, cost = count(t, a, b, md)
    best, bcost = ref.min_cost_at_max(dist)
    t.check(best == ref.max_matching_from(dist), "oracle disagreement")
    t.check(n == best, lambda: "%d pixels matched, a one-to-one matching of %d exists" % (n, best) if n < best else "%d pixels matched, at most %d can be" % (n, best))
    got = icost(m0)
    t.check(got == bcost, lambda: "total distance %d (in hundredths), a matching of the same size with %d exists" % (got, bcost))
    rel = case["rel"]
    h, w = a.shape
    if rel == "swap":
        n2 = count(t, b, a, md)[0]
    elif rel == "transpose":
        n2 = count(t, a.T.copy(), b.T.copy(), md)[0]
    elif rel == "flipud":
        n2 = count(t, a[::-1].copy(), b[::-1].copy(), md)[0]
    elif rel == "fliplr":
        n2 = count(t, a[:, ::-1].copy(), b[:, ::-1].copy(), md)[0]
    else:
        r = int(math.ceil(d)) + 1
        A = np.pad(a, ((0, 2 * r), (0, 0)))
        A[h + r:, :] = True  # far from every pixel of the second map
        B = np.pad(b, ((0, 2 * r), (0, 0)))
        n2 = count(t, A, B, d / math.hypot(*A.shape))[0]
    t.check(n2 == n, lambda: "%d matches, after %s %d" % (n, rel, n2))
    coincident = int((a & b).sum())
    t.nontrivial(best > 0 and (best != coincident or bcost > 0))
    t.label("conflicts", 0 < best < min(np.isfinite(dist).any(1).sum(), np.isfinite(dist).any(0).sum()) if dist.size else False)
    t.label("relation " + rel)
    t.label("nothing within tolerance", best == 0)
    t.label("pair exactly at the tolerance", bool((dist == d).any()))


@st.composite
def far_case(draw):
    """Tolerances of 6 to 60 pixels, as full-resolution images have them, and few pixels about that far apart."""
    d = draw(st.one_of(st.integers(600, 6000).map(lambda k: k / 100 + 0.003), st.sampled_from([6.7, 8.02, 12.6, 22.9, 45.8])))
    r = int(math.ceil(d))
    h, w = draw(st.sampled_from([(r + 4, r + 4), (2 * r + 5, 2 * r + 5), (1, 3 * r), (3 * r, 2)]))
    a, b = np.zeros((h, w), bool), np.zeros((h, w), bool)
    for _ in range(draw(st.integers(1, 3))):
        y, x = draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1))
        a[y, x] = True
        ang = draw(st.integers(0, 7)) * math.pi / 4 + draw(st.integers(-40, 40)) / 100
        rad = d * draw(st.sampled_from([0.999, 0.97, 0.9, 1.001, 0.5, 0.2]))
        dy, dx = int(rad * math.sin(ang)), int(rad * math.cos(ang))
        if 0 <= y + dy < h and 0 <= x + dx < w:
            b[y + dy, x + dx] = True
        if draw(st.booleans()):
            b[draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1))] = True
    if draw(st.booleans()):
        a, b = b, a
    return {"a": a, "b": b, "max_dist": d / math.hypot(h, w), "rel": draw(st.sampled_from(["swap", "transpose", "flipud", "fliplr", "pad"]))}


@st.composite
def large_case(draw):
    h, w = draw(g.dims(3, 30))
    a, b = draw(g.related_pair(h, w))
    return {"a": a, "b": b, "max_dist": draw(st.sampled_from(DISTS[:9])) / math.hypot(h, w)}


def check_large(case, t):
    a, b, md = case["a"], case["b"], case["max_dist"]
    d = ref.tol_px(a.shape, md)
    if ref.tol_ambiguous(d):
        return
    k, n1, n2 = ref.max_matching(a, b, d)
    n, m0, _ = count(t, a, b, md)
    first = n
    t.check(n <= k, lambda: "%d pixels matched, at most %d can be" % (n, k))
    slack = 6 + 0.04 * max(n1, n2)
    t.check(n >= k - slack, lambda: "%d pixels matched, %d could be" % (n, k))
    small = max(n1, n2) <= 60
    best_cost = None
    if small:
        pa, pb, dist = ref.pairs_within(a, b, d)
        k2, c2 = ref.min_cost_at_max(dist)
        calls = 1
        cost = icost(m0)
        while (n < k2 or cost > c2) and calls < 40:
            nn, mm, _ = count(t, a, b, md)
            t.check(nn <= k2, lambda: "%d pixels matched, at most %d can be" % (nn, k2))
            cc = icost(mm)
            if nn > n or (nn == n and cc < cost):
                n, cost = nn, cc
            calls += 1
        t.check(n == k2, lambda: "at most %d pixels matched in %d calls, a one-to-one matching of %d exists" % (n, calls, k2))
        t.check(cost >= c2, "a matching below the optimal cost")
        t.check(cost <= c2 + 0.02 * c2 + 200, lambda: "least total distance %d (in hundredths) in %d calls, %d is possible" % (cost, calls, c2))
        t.label("optimum in the first call", first == k2)
        t.label("cost optimal", cost == c2)
    t.nontrivial(k > 7)
    t.label("exact oracle", small and k > 7)
    t.label("over 60 matchable", not small)
    t.label("over 300 matchable", max(n1, n2) > 300)


SUBS = [Sub("small", small_case, check_small, 16000, 400000), Sub("far", far_case, check_small, 2000, 40000), Sub("boundary", exact_case, check_small, 2000, 40000), Sub("large", large_case, check_large, 4000, 60000)]
