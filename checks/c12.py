"""C12: multi-label edge encodings round-trip without mixing classes."""
import os

import numpy as np
from hypothesis import strategies as st
from PIL import Image

from pyEdgeEval.common.multi_label import edge_decoding as dec
from pyEdgeEval.common.multi_label import edge_encoding as enc
from pyEdgeEval.utils import convert_formats as cf
from vlib import gens as g
from vlib import ref
from vlib.harness import Sub

RULE = ("0/1 stacks of 1-32 classes of 1x1 to 16x16, enlarged up to 320x320, in several types; PNG, TIFF and raw files with scales 0.2-1; "
        "non-trivial: some pixel carries at least two classes and the highest class is used")
ASSUMPTIONS = ["the machine is little-endian"]


@st.composite
def stack(draw, kmax):
    k = draw(st.one_of(st.integers(1, kmax), st.sampled_from([x for x in (1, 7, 8, 9, 16, 17, 19, 20, 24, 25, 31, 32) if x <= kmax])))
    h, w = draw(g.dims(1, 16))
    kind = draw(st.sampled_from(["dense", "sparse", "ones", "one plane"]))
    if kind == "ones":
        e = np.ones((k, h, w), bool)
    elif kind == "one plane":
        e = np.zeros((k, h, w), bool)
        e[draw(st.integers(0, k - 1))] = draw(g.bitmap(h, w))
    else:
        v = draw(st.binary(min_size=4 * h * w, max_size=4 * h * w))
        x = np.frombuffer(v, np.uint32).reshape(h, w)
        if kind == "sparse":
            x = x & np.frombuffer(draw(st.binary(min_size=4 * h * w, max_size=4 * h * w)), np.uint32).reshape(h, w)
        e = np.stack([(x >> np.uint32(31 - i)) & 1 for i in range(k)]).astype(bool)
    return e.astype(draw(st.sampled_from(["uint8", "uint8", "bool", "int64"])))


def value(e):
    v = np.zeros(e.shape[1:], np.uint64)
    for k in range(len(e)):
        v |= np.where(e[k] != 0, np.uint64(1 << k), np.uint64(0))
    return v


@st.composite
def enc_case(draw):
    e = draw(stack(32))
    if draw(st.integers(0, 9)) == 9:  # large images
        f = draw(st.integers(1, 20)), draw(st.integers(1, 20))
        e = np.kron(e, np.ones((1,) + f, e.dtype)).astype(e.dtype)
    return {"e": e, "fewer": draw(st.integers(1, len(e))), "scale": draw(st.sampled_from([1, 1, 0.5, 0.75, 0.34, 0.2]))}


def check(case, t):
    e = case["e"]
    k, h, w = e.shape
    keep = e.copy()
    want = value(e)
    E = (e != 0)
    few = case["fewer"]
    for fn in (enc.default_multilabel_encoding, cf.edge_onehot2multilabel):
        v = np.asarray(t.call(fn, e))
        t.check(v.dtype == np.uint32, "%s returns %s" % (fn.__name__, v.dtype))
        t.eq_array(v.astype(np.uint64), want, fn.__name__)
    v = np.asarray(t.call(enc.default_multilabel_encoding, e))
    t.eq_array(t.call(cf.edge_multilabel2binary, e), E.any(0).astype(np.uint8), "edge_multilabel2binary", dtype=np.uint8)
    # raw file
    raw = os.path.join(t.tmp(), "e.bin")
    v.tofile(raw)
    got = t.call(dec.binary_multilabel_decoding, raw, h, w, k)
    t.eq_array(got, E.astype(np.uint8), "binary_multilabel_decoding")
    t.eq_array(t.call(dec.binary_multilabel_decoding, raw, h, w, few), E[:few].astype(np.uint8), "binary_multilabel_decoding of %d classes" % few)
    # tif
    tif = os.path.join(t.tmp(), "e.tif")
    Image.fromarray(v.view(np.int32)).save(tif)
    img = Image.open(tif)
    t.eq_array(t.call(dec.decode_tif, img, k), E.astype(np.uint8), "decode_tif")
    t.eq_array(t.call(dec.decode_tif, img, few), E[:few].astype(np.uint8), "decode_tif of %d classes" % few)
    if k <= 24:
        r = np.asarray(t.call(enc.rgb_multilabel_encoding, e))
        t.check(r.shape == (h, w, 3) and r.dtype == np.uint8, "rgb_multilabel_encoding returns %s %r" % (r.dtype, r.shape))
        r64 = r.astype(np.uint64)
        t.eq_array(r64[..., 0] * 65536 + r64[..., 1] * 256 + r64[..., 2], want, "rgb_multilabel_encoding")
        png = os.path.join(t.tmp(), "e.png")
        Image.fromarray(r).save(png)
        t.eq_array(t.call(dec.decode_png, Image.open(png), k), E.astype(np.uint8), "decode_png")
        t.eq_array(t.call(dec.decode_png, Image.open(png), few), E[:few].astype(np.uint8), "decode_png of %d classes" % few)
        path = png
        decode = dec.decode_png
    else:
        t.raises(ValueError, enc.rgb_multilabel_encoding, e)
        path, decode = tif, dec.decode_tif
    s = case["scale"]
    nh, nw = int(h * s + 0.5), int(w * s + 0.5)
    if nh > 0 and nw > 0:
        img, size = t.call(dec.load_scaled_edge, path, s)
        t.check(tuple(size) == (nh, nw), lambda: "load_scaled_edge reports size %r, expected %r" % (size, (nh, nw)))
        got = t.call(decode, img, k)
        t.eq_array(got, np.stack([ref.resize_nearest(p, nw, nh) for p in E.astype(np.uint8)]), "load_scaled_edge at scale %r, decoded" % s)
    t.eq_array(e, keep, "input after encoding")
    t.nontrivial(bool((E.sum(0) >= 2).any()) and bool(E[-1].any()))
    t.label("over 8 classes", k > 8)
    t.label("over 24 classes", k > 24)
    t.label("uint8", e.dtype == np.uint8)
    t.label("scaled", s != 1)


@st.composite
def many_case(draw):
    h, w = draw(g.dims(1, 5))
    k = draw(st.one_of(st.integers(33, 600), st.sampled_from([255, 256, 257, 512])))
    n = draw(g.levels(h * w, 4)).reshape(h, w)
    count = np.choose(n % 4, [np.full((h, w), draw(st.sampled_from([256, k, 1]))), np.zeros((h, w), int), np.full((h, w), k), np.ones((h, w), int)]).clip(0, k)
    return {"count": count, "k": k, "dtype": draw(st.sampled_from(["uint8", "bool", "int64", "int8"])), "off": draw(st.integers(0, k - 1))}


def check_many(case, t):
    """The union of any number of planes."""
    k, c = case["k"], case["count"]
    e = np.roll(np.arange(k)[:, None, None] < c[None], case["off"], axis=0).astype(case["dtype"])
    t.eq_array(t.call(cf.edge_multilabel2binary, e), (c > 0).astype(np.uint8), "edge_multilabel2binary of %d planes" % k, dtype=np.uint8)
    t.nontrivial(bool((c > 0).any()) and bool((c == 0).any()))
    t.label("256 edges at a pixel", bool((c == 256).any()))


SUBS = [Sub("many planes", many_case, check_many, 1000, 10000), Sub("encodings", enc_case, check, 8000, 120000), Sub("replaced", lambda: g.replaced(enc_case), g.check_replaced(check), 500, 5000)]
