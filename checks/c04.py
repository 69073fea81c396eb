"""C04: thinning preserves the topology of the edge map."""
import numpy as np
from hypothesis import strategies as st
from scipy import ndimage as ndi

from pyEdgeEval.preprocess.thin import binary_thin
from vlib import gens as g
from vlib.harness import Sub

RULE = ("binary maps up to 50x50 (noise, strokes, discs and rings with holes, full); non-trivial: thinning removes a "
        "pixel and the map has at least two foreground components or a hole")
ASSUMPTIONS = ["scipy.ndimage.label is correct"]
EIGHT = np.ones((3, 3), int)


@st.composite
def topo_case(draw):
    h, w = draw(g.dims(1, draw(st.sampled_from([7, 16, 50]))))
    a = draw(st.one_of(g.strokes(h, w, 10), g.bitmap(h, w), g.noise(h, w)))
    if draw(st.booleans()):  # punch holes
        a = a & ~(draw(g.noise(h, w)) & draw(g.noise(h, w)) & draw(g.noise(h, w)))
    return {"x": a}


def check(case, t):
    x = case["x"]
    y = np.asarray(t.call(binary_thin, x.copy())) != 0
    t.check(y.shape == x.shape, "shape changed")
    t.check(not (y & ~x).any(), "thinning added a pixel")
    # foreground, 8-connected
    lx, nx = ndi.label(x, EIGHT)
    ly, ny = ndi.label(y, EIGHT)
    owners = {}
    for comp in range(1, ny + 1):
        owners.setdefault(int(lx[ly == comp][0]), []).append(comp)
    for comp in range(1, nx + 1):
        k = len(owners.get(comp, []))
        t.check(k == 1, lambda: "an 8-connected component of %d pixels, e.g. at %r, has %d components after thinning" % (int((lx == comp).sum()), tuple(int(v) for v in np.argwhere(lx == comp)[0]), k))
    # background, 4-connected, the image surrounded by background
    bx, kx = ndi.label(np.pad(~x, 1, constant_values=True))
    by, ky = ndi.label(np.pad(~y, 1, constant_values=True))
    inside = {}
    for comp in range(1, kx + 1):
        inside.setdefault(int(by[bx == comp][0]), []).append(comp)
    for comp in range(1, ky + 1):
        k = len(inside.get(comp, []))
        t.check(k == 1, lambda: "a background region after thinning, e.g. at %r, holds %d regions of the input" % (tuple(int(v) - 1 for v in np.argwhere(by == comp)[0]), k))
    t.nontrivial(bool((x != y).any()) and (nx >= 2 or kx >= 2))
    t.label("holes", kx >= 2)
    t.label("several components", nx >= 2)
    t.label("nothing to thin", not (x != y).any())


@st.composite
def survivors_case(draw):
    """Shapes of which at least one pixel must stay."""
    h, w = draw(st.integers(8, 24)), draw(st.integers(8, 24))
    a = np.zeros((h, w), bool)
    kind = draw(st.sampled_from(["dot", "hline", "vline", "diag", "anti", "block"]))
    y, x = draw(st.integers(0, h - 7)), draw(st.integers(0, w - 7))
    n = draw(st.integers(1, 7))
    k = np.arange(n)
    if kind == "dot":
        a[y, x] = True
    elif kind == "hline":
        a[y, x:x + n] = True
    elif kind == "vline":
        a[y:y + n, x] = True
    elif kind == "diag":
        a[y + k, x + k] = True
    elif kind == "anti":
        a[y + k, x + n - 1 - k] = True
    else:
        a[y:y + 2, x:x + 2] = True
    return {"x": a, "kind": kind}


def check_survivors(case, t):
    y = t.call(binary_thin, case["x"].copy())
    t.check(bool(np.asarray(y).any()), "a %s vanished" % case["kind"])
    t.nontrivial()
    t.label(case["kind"])


@st.composite
def thick_case(draw):
    c = draw(topo_case())
    keys = [k for k, v in c.items() if isinstance(v, np.ndarray)]
    for k in keys:
        c[k] = draw(g.grown(c[k], 120, 16))
    return c


SUBS = [Sub("topology", topo_case, check, 15000, 300000), Sub("thick", thick_case, check, 500, 12000), Sub("survivors", survivors_case, check_survivors, 400, 4000)]
