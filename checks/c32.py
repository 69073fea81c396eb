"""C32: triangle smoothing and image gradients equal their definitions."""
import numpy as np
from hypothesis import strategies as st

from pyEdgeEval.preprocess.nms.toolbox import conv_tri, grad2
from vlib import gens as g
from vlib.harness import Sub

RULE = ("images of 1x1 to 30x30 (noise, few levels, impulses, constants, negative and large values; float64 and float32; C, Fortran and strided layouts), radius 0 to 12 including fractions below 1, "
        "subsampling 1 to 7; gradients also of integer and boolean-like images; non-trivial: the image is not constant and (smoothing) the radius is positive")
ASSUMPTIONS = ["results may differ from the definition by rounding: 1e-12 (1e-5 for float32) of the largest value", "a radius of 0 with subsampling is undefined and not generated"]


@st.composite
def image(draw, lo=1):
    h, w = draw(g.dims(lo, draw(st.sampled_from([4, 12, 30]))))
    kind = draw(st.sampled_from(["noise", "levels", "impulse", "const"]))
    if kind == "noise":
        a = np.frombuffer(draw(st.binary(min_size=h * w, max_size=h * w)), np.uint8).reshape(h, w) - 128.0
    elif kind == "levels":
        a = draw(g.levels(h * w, 3)).reshape(h, w).astype(float)
    elif kind == "impulse":
        a = np.zeros((h, w))
        for _ in range(draw(st.integers(1, 3))):
            a[draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1))] = draw(st.sampled_from([1.0, -2.0, 255.0]))
    else:
        a = np.full((h, w), draw(st.sampled_from([0.0, 1.0, 0.3, 1e6])))
    return a * draw(st.sampled_from([1.0, 1.0, 1 / 255.0, 1e-6, 1e5]))


@st.composite
def tri_case(draw):
    r = draw(st.one_of(st.sampled_from([1, 1, 4, 0.25, 0.5, 0.75, 1.0]), st.integers(1, 12), st.just(0), st.floats(0.0625, 1.0)))
    return {"img": draw(image()), "dtype": draw(st.sampled_from(["float64", "float64", "float32"])), "r": r,
            "s": 1 if r == 0 else draw(st.one_of(st.just(1), st.integers(1, 7))), "layout": draw(st.sampled_from(["C", "F", "strided"])), "kw": draw(st.booleans())}


def fold(i, n):
    """Index i of the image repeated by reflection at its border."""
    i %= 2 * n
    return i if i < n else 2 * n - 1 - i


def operator(n, r):
    if r <= 1:
        p = 12.0 / r / (r + 2) - 2
        taps = {-1: 1 / (2 + p), 0: p / (2 + p), 1: 1 / (2 + p)}
    else:
        taps = {k: (r + 1 - abs(k)) / (r + 1.0) ** 2 for k in range(-r, r + 1)}
    m = np.zeros((n, n))
    for i in range(n):
        for k, v in taps.items():
            m[i, fold(i + k, n)] += v
    return m


def picks(n, s):
    """Samples of a subsampled axis: one (the middle) of each complete group of s."""
    return [k * s + s // 2 for k in range(n // s)] if s > 1 else list(range(n))


def check_tri(case, t):
    img = g.relayout(case["img"].astype(case["dtype"]), case["layout"])
    keep = img.copy()
    r, s = case["r"], case["s"]
    got = t.call(conv_tri, img, r=r, s=s) if case["kw"] else t.call(conv_tri, img, r, s) if s != 1 else t.call(conv_tri, img, r)
    t.eq_array(img, keep, "input after conv_tri")
    h, w = img.shape
    want = img.astype(np.float64)
    if r:
        want = operator(h, r) @ want @ operator(w, r).T
    want = want[np.ix_(picks(h, s), picks(w, s))]
    tol = (1e-5 if case["dtype"] == "float32" else 1e-12) * max(1e-30, float(np.abs(img).max()))
    t.eq_array(got, want, "conv_tri(r=%r, s=%r) of a %dx%d image" % (r, s, h, w), exact=False, tol=tol)
    t.check(np.asarray(got).dtype == img.dtype, lambda: "dtype %s from %s" % (np.asarray(got).dtype, img.dtype))
    t.nontrivial(bool(np.ptp(img) > 0) and r > 0 and want.size > 0)
    t.label("subsampled", s > 1)
    t.label("radius beyond the image", r > min(h, w))
    t.label("fractional radius", 0 < r < 1)
    t.label("nothing left", want.size == 0)


@st.composite
def grad_case(draw):
    return {"img": draw(image(2)), "dtype": draw(st.sampled_from(["float64", "float64", "float32", "int32", "uint8"])), "layout": draw(st.sampled_from(["C", "F", "strided"]))}


def check_grad(case, t):
    a = case["img"]
    if case["dtype"] in ("uint8", "int32"):
        a = np.clip(a, 0 if case["dtype"] == "uint8" else -1000, 255)
    a = g.relayout(a.astype(case["dtype"]), case["layout"])
    keep = a.copy()
    res = t.call(grad2, a)
    t.check(len(res) == 2, "grad2 does not return two arrays")
    ox, oy = res
    t.eq_array(a, keep, "input after grad2")
    h, w = a.shape
    f = a.astype(np.float64)
    wx, wy = np.zeros((h, w)), np.zeros((h, w))
    for x in range(w):
        lo, hi = max(0, x - 1), min(w - 1, x + 1)
        wx[:, x] = (f[:, hi] - f[:, lo]) / (hi - lo)
    for y in range(h):
        lo, hi = max(0, y - 1), min(h - 1, y + 1)
        wy[y] = (f[hi] - f[lo]) / (hi - lo)
    tol = (1e-5 if case["dtype"] == "float32" else 1e-12) * max(1e-30, float(np.abs(f).max()))
    t.eq_array(ox, wx, "gradient along x", exact=False, tol=tol)
    t.eq_array(oy, wy, "gradient along y", exact=False, tol=tol)
    t.nontrivial(bool(np.ptp(f) > 0))
    t.label(case["dtype"])
    if h != w:
        t.label("not square")


@st.composite
def bad_case(draw):
    return {"shape": draw(st.sampled_from([[4], [3, 4, 2], [3, 3, 1]]))}


def check_bad(case, t):
    t.raises((AssertionError, ValueError, OSError), grad2, np.ones(case["shape"]))
    e = np.zeros((0, 4))
    t.eq_array(t.call(conv_tri, e, 3), e, "conv_tri of an empty image")
    t.nontrivial()


SUBS = [Sub("conv_tri", tri_case, check_tri, 12000, 300000), Sub("grad2", grad_case, check_grad, 5000, 100000), Sub("reject", bad_case, check_bad, 60, 200)]
