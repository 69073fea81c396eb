"""C05: non-maximum suppression keeps exactly the ridge responses."""
import numpy as np
from hypothesis import strategies as st
from scipy import ndimage as ndi

from pyEdgeEval._lib import nms
from pyEdgeEval.preprocess.nms import fast_nms
from vlib import gens as g
from vlib import ref
from vlib.harness import Sub

RULE = ("response images of 1x1 to 40x40 with few or many levels (noise, strokes, blurred strokes), random and constant "
        "orientations, radius 0..5, border 0..12, multiplier 0.5..3; non-trivial: at least one non-zero response is "
        "suppressed and at least one survives unambiguously")
ASSUMPTIONS = ["interpolated responses within 1e-6 (relative) of the limit and orientations from second derivatives that are zero up to rounding may go either way"]


@st.composite
def image(draw, h, w):
    kind = draw(st.sampled_from(["noise", "levels", "strokes", "blur", "ramp", "blur"]))
    if kind == "noise":
        return np.frombuffer(draw(st.binary(min_size=h * w, max_size=h * w)), np.uint8).reshape(h, w).copy()
    if kind == "levels":
        k = draw(st.integers(2, 5))
        return (draw(g.levels(h * w, k)).reshape(h, w) * (255 // k)).astype(np.uint8)
    if kind == "ramp":
        yy, xx = np.mgrid[:h, :w]
        return ((yy * draw(st.integers(0, 9)) + xx * draw(st.integers(0, 9)) + draw(st.integers(0, 50))) % 256).astype(np.uint8)
    m = draw(g.strokes(h, w)).astype(float)
    if kind == "blur":
        m = ndi.gaussian_filter(m, draw(st.sampled_from([0.7, 1.0, 2.0])), mode="constant")
        m = m / max(m.max(), 1e-9)
        jit = draw(g.levels(h * w, 9)).reshape(h, w)
        return np.clip(np.rint(m * 230) + jit, 0, 255).astype(np.uint8)
    return (m * draw(st.integers(1, 255))).astype(np.uint8)


@st.composite
def nms_case(draw):
    h, w = draw(g.dims(1, draw(st.sampled_from([7, 16, 40]))))
    edge = draw(image(h, w))
    kind = draw(st.sampled_from(["random", "random", "const", "axis"]))
    if kind == "const":
        ori = np.full((h, w), draw(st.integers(0, 628)) / 100.0)
    elif kind == "axis":
        ori = draw(g.levels(h * w, 4)).reshape(h, w) * (np.pi / 4)
    else:
        ori = draw(g.levels(h * w, 256)).reshape(h, w) * (2 * np.pi / 256) - draw(st.sampled_from([0.0, 3.0]))
    dt = draw(st.sampled_from(["float64", "float64", "float32", "uint8"]))
    e = edge if dt == "uint8" else (edge / 255.0).astype(dt)
    return {"edge": e, "ori": ori, "r": draw(st.integers(0, 5)), "s": draw(st.sampled_from([0, 0, 1, 2, 3, 5, 5, 9, 30])),
            "m": draw(st.one_of(st.sampled_from([1.01, 1.01, 1.0, 0.5, 1.2, 3.0]), st.integers(900, 1100).map(lambda k: k / 1000))), "layout": draw(st.sampled_from(["C", "F", "strided"]))}


def check(case, t):
    e, o = g.relayout(case["edge"], case["layout"]), g.relayout(case["ori"], case["layout"])
    e0, o0 = e.copy(), o.copy()
    r, s, m = case["r"], case["s"], case["m"]
    out = t.call(nms, e, o, r=r, s=s, m=m)
    t.eq_array(e, e0, "edge input after nms")
    t.eq_array(o, o0, "orientation input after nms")
    want, amb = ref.nms(e, o, r, s, m)
    alt = ref.nms(e, o, 0, s, m)[0]  # nothing suppressed
    compare(t, out, want, amb, alt, 1e-9)
    sup = (want == 0) & (alt != 0)
    t.nontrivial(bool(sup.any()) and bool(((want != 0) & ~amb).any()))
    t.label("fade covers everything", s >= min(e.shape) // 2)
    t.label("single row or column", 1 in e.shape)
    t.label("ambiguous pixels", bool(amb.any()))


def compare(t, out, want, amb, alt, tol):
    out = np.asarray(out, np.float64)
    t.check(out.shape == want.shape, "shape %r, expected %r" % (out.shape, want.shape))
    bad = ~(np.abs(out - want) <= tol)
    either = amb & ((np.abs(out) <= tol) | (np.abs(out - alt) <= tol))
    bad &= ~either
    if bad.any():
        y, x = (int(v) for v in np.argwhere(bad)[0])
        t.fail("pixel (%d,%d) is %r, expected %r%s (%d pixels differ)" % (y, x, out[y, x], want[y, x], " or %r" % alt[y, x] if amb[y, x] else "", int(bad.sum())))


def reference_fast(img, r, s, m, eps):
    """fast_nms from its description; pixels whose orientation is decided by rounding are ambiguous."""
    def tri(a, k):
        f = np.array([1, 2, 1]) / 4 if k == 1 else (k + 1 - np.abs(np.arange(-k, k + 1))) / (k + 1) ** 2
        a = np.pad(a, k, mode="symmetric")
        a = np.apply_along_axis(lambda v: np.convolve(v, f, "valid"), 0, a)
        return np.apply_along_axis(lambda v: np.convolve(v, f, "valid"), 1, a)

    def dx(a):
        o = np.empty_like(a)
        o[:, 1:-1] = (a[:, 2:] - a[:, :-2]) / 2
        o[:, 0], o[:, -1] = a[:, 1] - a[:, 0], a[:, -1] - a[:, -2]
        return o

    def dy(a):
        return dx(a.T).T

    edge = tri(img, 1)
    sm = tri(edge, 4)
    ox, oy = dx(sm), dy(sm)
    oxx, oxy, oyy = dx(ox), dx(oy), dy(oy)
    scale = max(1e-30, np.abs(sm).max())
    shaky = (np.abs(oxy) <= eps * scale) | (np.abs(oxx) <= eps * scale)
    den = np.where(oxx == 0, 1e-5, oxx)
    ori = np.mod(np.arctan(oyy * np.sign(-oxy) / den), np.pi)
    out, amb = ref.nms(edge, ori, r, s, m)
    # the orientation is known up to some error: suppression within that error is ambiguous too
    delta = np.minimum(1.0, 10 * eps * scale * (np.abs(oyy) + np.abs(oxx) + 1e-30) / np.maximum(np.abs(oxx), 1e-300) ** 2)
    for k in (-1, 1):
        o2, a2 = ref.nms(edge, ori + k * delta, r, s, m)
        amb |= a2 | (np.abs(o2 - out) > 1e-12)
    alt = ref.nms(edge, ori, 0, s, m)[0]
    return out, amb | shaky, alt


@st.composite
def fast_case(draw):
    h, w = draw(g.dims(2, 30))
    return {"img": draw(image(h, w)), "dtype": draw(st.sampled_from(["float64", "float64", "uint8", "float32"])),
            "args": draw(st.sampled_from([{}, {}, {"r": 2}, {"r": 3, "s": 0}, {"s": 2}, {"m": 1.2}, {"r": 1, "s": 0, "m": 1.0}])), "half": draw(st.sampled_from([False, False, False, True]))}


def check_fast(case, t):
    u8 = case["img"]
    f = u8 / 255.0
    args = dict(case["args"], half_prec=True) if case["half"] else case["args"]
    r, s, m = args.get("r", 1), args.get("s", 5), args.get("m", 1.01)
    x = u8 if case["dtype"] == "uint8" else f.astype(case["dtype"])
    keep = x.copy()
    out = t.call(fast_nms, x, **args)
    t.eq_array(x, keep, "input after fast_nms")
    f32 = case["dtype"] == "float32" or case["half"]
    want, amb, alt = reference_fast(x.astype(np.float64) if case["dtype"] != "uint8" else f, r, s, m, 1e-4 if f32 else 1e-10)
    compare(t, out, want, amb, alt, 1e-5 if f32 else 1e-9)
    if case["dtype"] == "uint8":
        t.eq_array(out, t.call(fast_nms, f, **args), "fast_nms of a uint8 image against its value/255")
    o8 = t.call(fast_nms, x, return_as_uint8=True, **args)
    t.eq_array(o8, np.round(np.clip(np.asarray(out, np.float64), 0, 1) * 255).astype(np.uint8), "return_as_uint8", dtype=np.uint8)
    sup = (want == 0) & (alt > 1e-9) & ~amb
    t.nontrivial(bool(sup.any()) and bool(((want > 1e-9) & ~amb).any()))
    t.label("unambiguous share over half", (amb & (alt > 0)).sum() * 2 < (alt > 0).sum())
    t.label(case["dtype"])
    t.label("half precision", case["half"])


@st.composite
def reject_case(draw):
    h, w = draw(g.dims(1, 8))
    h2, w2 = draw(g.dims(1, 8))
    if (h2, w2) == (h, w):
        w2 += 1
    return {"s": [h, w], "s2": [h2, w2]}


def check_reject(case, t):
    t.raises(ValueError, nms, np.ones(case["s"]), np.zeros(case["s2"]))
    t.nontrivial()


SUBS = [Sub("nms", nms_case, check, 10000, 200000), Sub("fast_nms", fast_case, check_fast, 2500, 40000), Sub("reject", reject_case, check_reject, 200, 2000)]
