"""C15: all edge generators agree."""
import os

import numpy as np
from hypothesis import strategies as st

from pyEdgeEval import datasets as D
from pyEdgeEval.edge_tools import (
    InstanceMask2Edge,
    Mask2Edge,
    loop_instance_mask2edge,
    loop_mask2edge,
    mask2edge,
    mp_instance_mask2edge,
    mp_mask2edge,
)
from vlib import datasets as ds
from vlib import gens as g
from vlib import ref
from vlib.harness import Sub

RULE = ("label and instance maps of 2x2 to 20x20 with 1-34 classes; the same maps go through the loop, multiprocessing (1-4 processes), dispatching, "
        "transform and on-the-fly generators, several parameter sets one after another on shared objects; non-trivial: the edges are not empty")
ASSUMPTIONS = ["label maps of the instance-sensitive transform use labels 0..n-1, instance ids are label*1000+number"]


@st.composite
def maps(draw, hi=20):
    h, w = draw(g.dims(2, draw(st.sampled_from([6, 12, hi]))))
    kind = draw(st.sampled_from(["low", "low", "city"]))
    if kind == "low":
        inst_labels = draw(st.sampled_from([[1, 2, 3], list(range(1, 21)), [2, 1], [5, 9, 10, 11]]))
        palette = sorted(set(inst_labels[:4]) | {0, draw(st.integers(0, 12))})
        nlab = max(palette) + draw(st.integers(1, 3))
    else:
        inst_labels = ds.INST
        palette = [0, 2, 3, 7, 24, 26, 33]
        nlab = 34
    lab = np.array(palette)[draw(g.blob_labels(h, w, len(palette)))]
    patches = draw(g.inst_patches(h, w, 4))
    gone = draw(st.sampled_from([[], [], [0], [3], [1, 2, 3]]))  # patches outside all instances
    nums = draw(st.lists(st.one_of(st.integers(0, 12), st.integers(0, 999)), min_size=4, max_size=4, unique=True))
    inst = np.zeros((h, w), np.int32)
    for c in set(inst_labels):
        sel = lab == c
        if draw(st.sampled_from([True, True, True, False])):
            inst[sel] = c * 1000 + np.array(nums)[patches[sel]]
            inst[sel & np.isin(patches, gone)] = 0
    if draw(st.integers(0, 9)) == 9:  # many instances
        yy, xx = np.mgrid[:h, :w]
        sel = inst >= 1000
        inst[sel] = inst[sel] // 1000 * 1000 + (draw(st.integers(0, 999)) + yy[sel] * w + xx[sel]) % 1000
    if kind == "city":
        inst[inst == 0] = lab[inst == 0]
    return {"lab": lab.astype(np.uint8), "nlab": nlab, "inst": inst, "inst_labels": list(inst_labels), "palette": palette}


@st.composite
def pset(draw, c):
    p = c["palette"]
    return {"ignore": draw(st.sampled_from([[], [], [0], [p[-1]], [p[1]], [p[0], p[-1]]])), "radius": draw(st.sampled_from([1, 2, 2, 3, 4]))}


def onehot(lab, n):
    return np.stack([lab == i for i in range(n)]).astype(np.uint8)


@st.composite
def mp_case(draw):
    c = draw(maps())
    # several calls: nothing may carry over
    c["calls"] = [dict(draw(pset(c)), quality=draw(st.sampled_from([0, 0, 3, 5])), nproc=draw(st.sampled_from([1, 2, 2, 3, 4])), cv2=draw(st.sampled_from([True, True, False])),
                       what=draw(st.sampled_from(["plain", "inst", "plain", "inst", "thin"])), via=draw(st.booleans()), sub=draw(st.booleans())) for _ in range(draw(st.integers(1, 2)))]
    return c


def check_mp(case, t):
    for k in case["calls"]:
        lab, inst = case["lab"], case["inst"]
        if k["sub"]:  # another size on the next call
            lab, inst = lab[: max(1, lab.shape[0] - 1), 1:], inst[: max(1, lab.shape[0] - 1), 1:]
            inst = np.ascontiguousarray(inst)
        m = onehot(lab, case["nlab"])
        kw = dict(mask=m, ignore_indices=list(k["ignore"]), radius=k["radius"], use_cv2=k["cv2"], quality=k["quality"])
        is_ = k["what"] == "inst" or (k["what"] == "thin" and k["sub"])
        if is_:
            kw.update(inst_mask=inst, inst_labelIds=list(case["inst_labels"]))
        if k["what"] == "thin":
            kw.update(thin=True, nproc=k["nproc"])
            if k["via"]:
                t.raises(NotImplementedError, mask2edge, "mp", is_, **kw)
            else:
                t.raises(NotImplementedError, mp_instance_mask2edge if is_ else mp_mask2edge, **kw)
            continue
        want = np.asarray(t.call(loop_instance_mask2edge if is_ else loop_mask2edge, **kw))
        keep = m.copy(), inst.copy()
        if k["via"]:
            got = t.call(mask2edge, "mp", is_, nproc=k["nproc"], **kw)
        else:
            got = t.call(mp_instance_mask2edge if is_ else mp_mask2edge, nproc=k["nproc"], **kw)
        t.eq_array(got, want, "multiprocessing (%s) against loop" % k["what"], dtype=want.dtype)
        t.eq_array(m, keep[0], "mask after the call")
        t.eq_array(inst, keep[1], "instance map after the call")
        t.nontrivial(bool(want.any()))
        t.label("mp " + k["what"])
        t.label("instances matter", is_ and bool((want != ref.class_edges(m, k["ignore"], k["radius"])).any()))


@st.composite
def tr_case(draw):
    c = draw(maps())
    n = c["nlab"]
    c["perm"] = draw(st.permutations(range(n)))
    c["sets"] = [dict(draw(pset(c)), quality=draw(st.sampled_from([0, 0, 3, 5])), cv2=draw(st.booleans()), train=draw(st.booleans()), inst=draw(st.booleans()),
                      run=draw(st.sampled_from(["loop", "loop", "serial", "", "MP", None])), thin=draw(st.booleans()), internal=draw(st.booleans()),
                      custom=draw(st.booleans())) for _ in range(draw(st.integers(1, 3)))]
    keep = draw(st.lists(st.sampled_from(range(n)), min_size=1, max_size=min(n, 6), unique=True))
    order = draw(st.permutations(range(len(keep))))
    c["train"] = [list(keep), list(order)]
    c["dtype"] = draw(st.sampled_from(["uint8", "int64", "int32"]))
    return c


def check_tr(case, t):
    lab, inst, n = case["lab"].astype(case["dtype"]), case["inst"], case["nlab"]
    l2t = dict(zip(*case["train"]))
    m = onehot(lab, n)
    objs = []
    for k in case["sets"]:
        kw = dict(ignore_indices=list(k["ignore"]), radius=k["radius"], use_cv2=k["cv2"], quality=k["quality"])
        ikw = dict(inst_labelIds=list(case["inst_labels"])) if k["inst"] else {}
        perm = list(range(n))
        if k["custom"] and not k["inst"] and not k["train"]:
            perm = list(case["perm"])  # label ids in any order, ignored ones given by position
        cls = InstanceMask2Edge if k["inst"] else Mask2Edge
        objs.append((k, perm, t.call(cls, labelIds=perm, label2trainId=dict(l2t) if k["train"] else None, **kw, **ikw)))
    for rep in range(2):  # all objects made before any is used, each used twice
        for k, perm, obj in objs:
            keep = lab.copy(), inst.copy()
            out = t.call(obj, lab, inst) if k["inst"] else t.call(obj, lab)
            t.eq_array(lab, keep[0], "label map after the transform")
            t.eq_array(inst, keep[1], "instance map after the transform")
            want = ref.class_edges(m[perm], k["ignore"], k["radius"], False, False, inst if k["inst"] else None, case["inst_labels"], ref.cv_dist(k["quality"]) if k["cv2"] and k["quality"] else None).astype(np.uint8)
            wmask = lab
            if k["train"]:
                planes = np.zeros((len(l2t),) + lab.shape, np.uint8)
                wmask = np.full(lab.shape, 255, np.uint8)
                for a, b in l2t.items():
                    planes[b] = want[a]
                    wmask[lab == a] = b
                want = planes
            t.check(set(out) == {"edge", "mask"}, "the transform returns %r" % sorted(out))
            t.eq_array(out["edge"], want, "%s%s, call %d" % (type(obj).__name__, " with train ids" if k["train"] else "", rep), dtype=np.uint8)
            t.eq_array(out["mask"], wmask, "mask of the transform")
            t.nontrivial(bool(want.any()))
            t.label(type(obj).__name__ + (" trainIds" if k["train"] else ""))
    for k in case["sets"]:
        kw = dict(mask=m, ignore_indices=list(k["ignore"]), radius=k["radius"], use_cv2=k["cv2"], quality=k["quality"], thin=k["thin"], internal_only=k["internal"])
        if k["inst"]:
            kw.update(inst_mask=inst, inst_labelIds=list(case["inst_labels"]))
        if k["run"] == "loop":
            got = t.call(mask2edge, "loop", k["inst"], **kw)
            want = t.call(loop_instance_mask2edge if k["inst"] else loop_mask2edge, **kw)
            t.eq_array(got, want, "mask2edge(loop)", dtype=np.uint8)
            if not k["quality"]:
                want = ref.class_edges(m, k["ignore"], k["radius"], k["thin"], k["internal"], inst if k["inst"] else None, case["inst_labels"])
                t.eq_array(got, want.astype(np.uint8), "mask2edge(loop) and the definition", dtype=np.uint8)
        else:
            t.raises(ValueError, mask2edge, k["run"], k["inst"], **kw)


@st.composite
def otf_case(draw):
    h, w = draw(g.dims(2, draw(st.sampled_from([6, 12, 20]))))
    lab, inst = draw(ds.label_pair(h, w, draw(st.sampled_from([[0, 2, 3, 7, 24, 26], [24, 25, 26, 3], [7, 8, 11, 33, 1]]))))
    return {"lab": lab, "inst": inst, "radius": draw(st.sampled_from([1, 2, 3])), "is": draw(st.booleans())}


def check_otf(case, t):
    lab, inst = case["lab"], case["inst"]
    d = t.tmp()
    m = onehot(lab, 34)
    kw = dict(mask=m, ignore_indices=[2, 3], radius=case["radius"])
    if case["is"]:
        loop = t.call(loop_instance_mask2edge, inst_mask=inst.astype(np.int32), inst_labelIds=ds.INST, **kw)
    else:
        loop = t.call(loop_mask2edge, **kw)
    ds.write_img(os.path.join(d, "lab.png"), lab)
    ds.write_img(os.path.join(d, "inst.png"), inst)
    for c in sorted({int(v) for v in np.unique(lab) if int(v) in ds.TRAIN} | {12}):
        e = np.asarray(loop[c]) != 0
        ds.write_img(os.path.join(d, "pred.png"), e.astype(np.uint8) * 255)
        kw = dict(
            seg_path=os.path.join(d, "lab.png"), inst_path=os.path.join(d, "inst.png") if case["is"] else None, pred_path=os.path.join(d, "pred.png"),
            category=ds.TRAIN[c] + 1, scale=1, max_dist=0.4 / np.hypot(*lab.shape), thresholds=0.5, apply_thinning=False, apply_nms=False,
            kill_internal=False, skip_if_nonexistent=False, radius=case["radius"])
        n = float(e.sum())
        for _ in range(30):  # a single matching may lose a pixel, see C02
            r = [float(np.asarray(x)[0]) for x in t.call(D.otf_cityscapes_eval_single, kw)]
            if r == [n, n, n, n] or r[1] != n or r[3] != n:
                break
        # on large maps every randomised matching may lose some pixel; exact on the small ones
        slack = 0 if n <= 150 else n // 100 + 1
        ok = r[1] == n and r[3] == n and all(n - slack <= v <= n for v in (r[0], r[2]))
        t.check(ok, lambda: "the on-the-fly edges of label %d differ from the loop edges (%d pixels): counts %r" % (c, n, r))
        t.nontrivial(n > 0)


SUBS = [
    Sub("transforms", tr_case, check_tr, 3000, 60000),
    Sub("onthefly", otf_case, check_otf, 2000, 30000),
    Sub("processes", mp_case, check_mp, 1200, 12000),
]
