"""C13: class edges are exactly the pixels within the radius of the class boundary."""
import numpy as np
from hypothesis import strategies as st

from pyEdgeEval.edge_tools.mask2edge_loop import loop_mask2edge
from vlib import gens as g
from vlib import ref
from vlib.harness import Sub

RULE = ("label maps of 1x1 to 26x26, strips and enlarged maps up to 160x160, with 1-6 classes (blobs, stripes, noise, one class only), radius 1-17, up to two ignored classes, "
        "internal/thin/backend options; non-trivial: at least two classes are present and an edge pixel exists")
ASSUMPTIONS = ["masks are one-hot 0/1 stacks, as mask2onehot makes them"]


@st.composite
def label_case(draw):
    h, w = draw(g.dims(1, draw(st.sampled_from([7, 14, 26]))))
    k = draw(st.sampled_from([2, 3, 4, 1, 2, 3, 5, 6]))
    lab = draw(g.blob_labels(h, w, k))
    ign = draw(st.sampled_from([[], [], [0], [k - 1], sorted({0, k // 2}), [draw(st.integers(0, k - 1))]]))
    return {"lab": lab, "k": k, "ignore": ign, "radius": draw(st.sampled_from([1, 2, 2, 3, 4, 6])), "thin": draw(st.booleans()),
            "internal": draw(st.sampled_from([False, False, True])), "quality": draw(st.sampled_from([0, 0, 3, 5])), "cv2": draw(st.sampled_from([True, True, False])), "unlabelled": draw(st.sampled_from([False, False, True]))}


def onehot(case):
    lab = case["lab"]
    k = case["k"]
    n = k - 1 if case.get("unlabelled") and k > 1 else k
    return np.stack([(lab == i) for i in range(n)]).astype(np.uint8)


def check(case, t):
    m = onehot(case)
    ign = [i for i in case["ignore"] if i < len(m)]
    keep, keep_ign = m.copy(), list(ign)
    kw = dict(ignore_indices=ign, radius=case["radius"])
    if case["thin"]:
        kw["thin"] = True
    if case["internal"]:
        kw["internal_only"] = True
    want = ref.class_edges(m, ign, case["radius"], case["thin"], case["internal"]).astype(np.uint8)
    got = t.call(loop_mask2edge, mask=m, use_cv2=case["cv2"], **kw)
    t.eq_array(got, want, "loop_mask2edge(use_cv2=%r, %r)" % (case["cv2"], kw), dtype=np.uint8)
    if case["quality"]:  # OpenCV's approximate distances
        q = case["quality"]
        t.eq_array(t.call(loop_mask2edge, mask=m, quality=q, **kw), ref.class_edges(m, ign, case["radius"], case["thin"], case["internal"], dist=ref.cv_dist(q)).astype(np.uint8),
                   "loop_mask2edge(quality=%d, %r)" % (q, kw), dtype=np.uint8)
    other = t.call(loop_mask2edge, mask=m, use_cv2=not case["cv2"], **kw)
    t.eq_array(other, want, "loop_mask2edge(use_cv2=%r, %r)" % (not case["cv2"], kw), dtype=np.uint8)
    t.eq_array(m, keep, "mask after the call")
    t.check(ign == keep_ign, "the ignore list was modified")
    t.nontrivial(len(np.unique(case["lab"])) >= 2 and bool(want.any()))
    t.label("ignored pixels present", any(m[i].any() for i in ign))
    t.label("edge on an ignored pixel", any((want.any(0) & (m[i] > 0)).any() for i in ign))
    t.label("class covers the image", any(x.all() for x in m))
    t.label("unlabelled pixels", bool((m.sum(0) == 0).any()))


@st.composite
def large_case(draw):
    c = draw(label_case())
    c["lab"] = draw(g.grown(c["lab"], 160, 20))
    c["radius"] = draw(st.sampled_from([1, 2, 3, 5, 8, 12, 17]))
    return c


SUBS = [Sub("edges", label_case, check, 14000, 200000), Sub("large", large_case, check, 500, 12000)]
