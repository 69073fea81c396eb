"""Generators. Every random choice is drawn through Hypothesis."""
import numpy as np
from hypothesis import strategies as st


def side(lo, hi):
    """A side length, often small, often near the upper end."""
    return st.one_of(st.integers(lo, min(hi, max(lo, 6))), st.integers(max(lo, (hi + 1) // 2), hi), st.integers(lo, hi))


@st.composite
def dims(draw, lo=1, hi=24, strip=True):
    """Height and width; now and then a long narrow strip."""
    if strip and hi >= 12 and draw(st.integers(0, 15)) == 15:
        a, b = draw(st.integers(lo, max(lo, 4))), draw(st.one_of(st.integers(hi, 8 * hi), st.sampled_from([64, 65, 127, 128, 129, 255, 256, 257, 300])))
        return (a, b) if draw(st.booleans()) else (b, a)
    return draw(side(lo, hi)), draw(side(lo, hi))


@st.composite
def grown(draw, a, limit=200, kmax=12):
    """The map enlarged by whole factors (up to `limit` pixels a side), with some pixels moved."""
    h, w = a.shape
    fy, fx = (draw(st.integers(1, max(1, min(kmax, limit // n)))) for n in (h, w))
    b = np.kron(a, np.ones((fy, fx), a.dtype)).astype(a.dtype)
    H, W = b.shape
    for _ in range(draw(st.integers(0, 6))):
        y, x, n, m = draw(st.integers(0, H - 1)), draw(st.integers(0, W - 1)), draw(st.integers(1, 9)), draw(st.integers(1, 9))
        b[y:y + n, x:x + m] = a[draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1))]
    return b


@st.composite
def raw_bits(draw, n):
    b = draw(st.binary(min_size=(n + 7) // 8, max_size=(n + 7) // 8))
    return np.unpackbits(np.frombuffer(b, dtype=np.uint8))[:n].astype(bool)


@st.composite
def levels(draw, n, k):
    """n integers 0..k-1 (k <= 256)."""
    b = draw(st.binary(min_size=n, max_size=n))
    return (np.frombuffer(b, dtype=np.uint8).astype(np.int64) * k // 256).astype(np.int64)


@st.composite
def noise(draw, h, w):
    """Random bits of some density."""
    n = h * w
    d = draw(st.integers(0, 6))
    x = draw(raw_bits(n))
    if d in (0, 1, 2, 3):
        for _ in range(d):
            x = x & draw(raw_bits(n))
    elif d == 4:
        x = x | draw(raw_bits(n))
    else:
        x = x | draw(raw_bits(n)) | draw(raw_bits(n))
    return x.reshape(h, w)


def draw_line(a, y0, x0, y1, x1, v=True):
    n = max(abs(y1 - y0), abs(x1 - x0)) + 1
    ys = np.rint(np.linspace(y0, y1, n)).astype(int)
    xs = np.rint(np.linspace(x0, x1, n)).astype(int)
    a[ys, xs] = v


@st.composite
def strokes(draw, h, w, kmax=6):
    """Lines, outlines, filled rectangles and discs, with holes."""
    a = np.zeros((h, w), bool)
    for _ in range(draw(st.integers(1, kmax))):
        kind = draw(st.sampled_from(["line", "rect", "frame", "disc", "ring", "dot", "erase"]))
        y0, x0 = draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1))
        y1, x1 = draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1))
        ya, yb, xa, xb = min(y0, y1), max(y0, y1), min(x0, x1), max(x0, x1)
        yy, xx = np.mgrid[:h, :w]
        if kind == "line":
            draw_line(a, y0, x0, y1, x1)
        elif kind == "rect":
            a[ya:yb + 1, xa:xb + 1] = True
        elif kind == "frame":
            a[ya:yb + 1, [xa, xb]] = True
            a[[ya, yb], xa:xb + 1] = True
        elif kind in ("disc", "ring"):
            r = draw(st.integers(0, max(1, min(h, w) // 2)))
            d2 = (yy - y0) ** 2 + (xx - x0) ** 2
            a[(d2 <= r * r) & ((kind == "disc") | (d2 >= (r - 1) ** 2))] = True
        elif kind == "dot":
            a[y0, x0] = True
        else:
            a[ya:yb + 1, xa:xb + 1] = False
    return a


@st.composite
def bitmap(draw, h, w):
    kind = draw(st.sampled_from(["strokes", "noise", "strokes+noise", "strokes", "noise", "strokes+noise", "empty", "full"]))
    if kind == "noise":
        return draw(noise(h, w))
    if kind == "strokes":
        return draw(strokes(h, w))
    if kind == "strokes+noise":
        return draw(strokes(h, w)) ^ (draw(noise(h, w)) & draw(noise(h, w)) & draw(noise(h, w)))
    if kind == "empty":
        a = np.zeros((h, w), bool)
        for _ in range(draw(st.integers(0, 2))):
            a[draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1))] = True
        return a
    a = np.ones((h, w), bool)
    for _ in range(draw(st.integers(0, 2))):
        a[draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1))] = False
    return a


@st.composite
def sparse_points(draw, h, w, kmax=7):
    """At most kmax set pixels."""
    a = np.zeros((h, w), bool)
    for _ in range(draw(st.integers(0, kmax))):
        a[draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1))] = True
    return a


def shift(a, dy, dx):
    """Moved by (dy, dx), what leaves is lost."""
    out = np.zeros_like(a)
    h, w = a.shape
    ys, xs = max(0, dy), max(0, dx)
    ye, xe = min(h, h + dy), min(w, w + dx)
    if ye > ys and xe > xs:
        out[ys:ye, xs:xe] = a[ys - dy:ye - dy, xs - dx:xe - dx]
    return out


@st.composite
def related_pair(draw, h, w, gen=None):
    """Two binary maps: independent, or the second a displaced, perturbed copy of the first."""
    gen = gen or bitmap
    kind = draw(st.sampled_from(["crossed", "shift", "shift+noise", "indep", "same", "subset"]))
    if kind == "crossed":  # two textures: many pixels compete for few partners
        a, b = draw(noise(h, w)), draw(strokes(h, w))
        return (a, b) if draw(st.booleans()) else (b, a)
    a = draw(gen(h, w))
    if kind == "indep":
        b = draw(gen(h, w))
    elif kind == "same":
        b = a.copy()
    elif kind == "subset":
        b = a & draw(noise(h, w))
    else:
        b = shift(a, draw(st.integers(-2, 2)), draw(st.integers(-2, 2)))
        if kind == "shift+noise":
            b = b ^ (draw(noise(h, w)) & draw(noise(h, w)) & draw(noise(h, w)))
    return a, b


VALUE_KINDS = ["bool", "uint8_1", "uint8_255", "uint8_any", "int32", "int64", "float64", "float32", "neg"]


@st.composite
def valued(draw, a, kinds=None):
    """The same binary map in another type and with other non-zero values."""
    kind = draw(st.sampled_from(kinds or VALUE_KINDS))
    if kind == "bool":
        return a.copy()
    if kind == "uint8_1":
        return a.astype(np.uint8)
    if kind == "uint8_255":
        return a.astype(np.uint8) * 255
    if kind == "uint8_any":
        v = 1 + draw(levels(a.size, 255)).reshape(a.shape)
        return np.where(a, v, 0).astype(np.uint8)
    if kind == "int32":
        return a.astype(np.int32) * draw(st.integers(1, 1000))
    if kind == "int64":
        return a.astype(np.int64) * draw(st.sampled_from([1, 2, 256, 65536, -1]))
    if kind == "float64":
        return a.astype(np.float64) * draw(st.sampled_from([1.0, 0.5, 1e-3, 7.0]))
    if kind == "float32":
        return a.astype(np.float32)
    return -a.astype(np.int16)


@st.composite
def layout(draw, a):
    """The same values in C, Fortran or strided memory."""
    k = draw(st.sampled_from(["C", "C", "F", "strided", "neg"]))
    return relayout(a, k)


def relayout(a, k):
    if k == "F":
        return np.asfortranarray(a)
    if k == "strided":
        b = np.zeros((a.shape[0] * 2, a.shape[1] * 2), a.dtype)
        b[::2, ::2] = a
        return b[::2, ::2]
    if k == "neg":
        return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    return a


@st.composite
def blob_labels(draw, h, w, nlab, kmax=8):
    """A label map 0..nlab-1 made of rectangles, discs and specks on a background."""
    bg = draw(st.integers(0, nlab - 1))
    a = np.full((h, w), bg, np.int64)
    yy, xx = np.mgrid[:h, :w]
    kind = draw(st.sampled_from(["blobs", "blobs", "blobs", "noise", "stripes"]))
    if kind == "noise":
        return draw(levels(h * w, nlab)).reshape(h, w)
    if kind == "stripes":
        n = draw(st.integers(1, 5))
        vals = [draw(st.integers(0, nlab - 1)) for _ in range(n)]
        if len(set(vals)) == 1 and n > 1:
            vals[-1] = (vals[0] + 1) % nlab
        idx = (yy if draw(st.booleans()) else xx) * n // (max(h, w))
        return np.array(vals, np.int64)[np.clip(idx, 0, n - 1)]
    for n in range(draw(st.one_of(st.integers(min(2, kmax), kmax), st.integers(0, kmax)))):
        v = draw(st.integers(0, nlab - 1))
        if v == bg and n == 0:
            v = (v + 1) % nlab
        y0, x0 = draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1))
        if draw(st.booleans()):
            y1, x1 = draw(st.integers(0, h - 1)), draw(st.integers(0, w - 1))
            a[min(y0, y1):max(y0, y1) + 1, min(x0, x1):max(x0, x1) + 1] = v
        else:
            r = draw(st.integers(0, max(1, min(h, w) // 2)))
            a[(yy - y0) ** 2 + (xx - x0) ** 2 <= r * r] = v
    return a


@st.composite
def inst_patches(draw, h, w, n):
    """Patch numbers 0..n-1 that split an area into instances, most often into several."""
    p = draw(blob_labels(h, w, n, kmax=4))
    if n > 1 and draw(st.sampled_from([True, True, False])):
        yy, xx = np.mgrid[:h, :w]
        k = draw(st.integers(2, 4))
        ax = draw(st.sampled_from([yy * k // h, xx * k // w, (yy * 2 // h + xx * 2 // w)]))
        p = (p + ax) % n
    return p


@st.composite
def pred_uint8(draw, h, w, gt=None):
    """An 8-bit edge response: noise, few levels, or blurred ground truth."""
    kind = draw(st.sampled_from(["gt", "gt", "levels", "gt", "noise", "gt", "levels", "gt", "zero"]))
    if kind == "zero":
        return np.zeros((h, w), np.uint8)
    if kind == "noise":
        return np.frombuffer(draw(st.binary(min_size=h * w, max_size=h * w)), np.uint8).reshape(h, w).copy()
    k = draw(st.integers(2, 6))
    vals = np.array([0] + sorted(draw(st.lists(st.integers(1, 255), min_size=k - 1, max_size=k - 1))), np.uint8)
    base = vals[draw(levels(h * w, k)).reshape(h, w)]
    m = draw(st.one_of(strokes(h, w), noise(h, w), bitmap(h, w)))
    out = np.where(m, base, 0).astype(np.uint8)
    if kind == "gt" and gt is not None:
        g = shift(gt.astype(bool), draw(st.integers(-1, 1)), draw(st.integers(-1, 1)))
        out = np.maximum(out // draw(st.sampled_from([1, 2, 255])), np.where(g, np.maximum(base, 60), 0)).astype(np.uint8)
    return out


@st.composite
def threshold_list(draw, nmax=4, grid=255):
    """Explicit thresholds in any order, on the 8-bit grid, between its values, or outside [0,1]."""
    vals = []
    for _ in range(draw(st.integers(1, nmax))):
        k = draw(st.sampled_from(["grid", "between", "any", "edge"]))
        if k == "grid":
            vals.append(draw(st.integers(0, grid)) / float(grid))
        elif k == "between":
            vals.append((draw(st.integers(0, grid - 1)) + 0.5) / float(grid))
        elif k == "any":
            vals.append(draw(st.integers(1, 999)) / 1000.0)
        else:
            vals.append(draw(st.sampled_from([0.0, 1.0, 0.5, 1e-9, 1.1])))
    return vals


# ---------------------------------------------------------------- files that change
def _reseed(c, by, hits):
    if isinstance(c, dict):
        if isinstance(c.get("seed"), int):
            hits.append(1)
        return {k: (v + by if k == "seed" and isinstance(v, int) else _reseed(v, by, hits)) for k, v in c.items()}
    if isinstance(c, list):
        return [_reseed(v, by, hits) for v in c]
    return c


@st.composite
def replaced(draw, gen):
    """Cases whose files follow each other at the same paths: what was read before must not matter."""
    first = draw(gen())
    cases = [first]
    for i in range(draw(st.sampled_from([1, 1, 2]))):
        hits = []
        other = _reseed(first, i + 1, hits)
        cases.append(other if hits and draw(st.booleans()) else draw(gen()))
    return {"cases": cases}


def check_replaced(check):
    def run(case, t):
        for c in case["cases"]:
            t.clear()
            check(c, t)
    return run
