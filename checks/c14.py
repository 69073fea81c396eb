"""C14: instance-sensitive edges add every instance boundary to its own class only."""
import numpy as np
from hypothesis import strategies as st
from scipy import ndimage as ndi

from pyEdgeEval.edge_tools.mask2edge_loop import loop_instance_mask2edge, loop_mask2edge
from vlib import gens as g
from vlib import ref
from vlib.harness import Sub

RULE = ("label maps of 2x2 to 22x22 (enlarged up to 90x90, with up to several hundred instances) over label sets like those of SBD (1-20) and Cityscapes (24-33), instances as patches of "
        "their class with arbitrary numbers 0-999, touching or not, with parts of the class outside all instances; non-trivial: instances add edge pixels to the class edges")
ASSUMPTIONS = ["instance ids agree with the label map and label*1000+number has at most five digits"]


@st.composite
def inst_case(draw, hi=22):
    h, w = draw(g.dims(2, draw(st.sampled_from([6, 12, hi]))))
    kind = draw(st.sampled_from(["low", "low", "city", "mixed"]))
    if kind == "low":
        inst_labels = draw(st.sampled_from([[1, 2, 3], list(range(1, 21)), [2, 1], [1], [3, 5, 9, 10, 11]]))
        palette = sorted(set(inst_labels[:draw(st.sampled_from([2, 20]))]) | {0, draw(st.integers(0, 12))})
        nlab = max(palette) + 1
    elif kind == "city":
        inst_labels = [24, 25, 26, 27, 28, 31, 32, 33]
        palette = [0, 2, 3, 7, 24, 26, 33]
        nlab = 34
    else:
        inst_labels = [5, 12]
        palette = [0, 3, 5, 9, 12]
        nlab = 13
    idx = draw(g.blob_labels(h, w, len(palette)))
    lab = np.array(palette)[idx]
    # instances: split the class areas by a second patch map
    npatch = draw(st.integers(1, 5))
    patches = draw(g.inst_patches(h, w, npatch))
    # parts of a class that belong to no instance, often next to a single one
    gone = draw(st.sampled_from([[], [], [0], [npatch - 1], list(range(1, npatch))]))
    nums = draw(st.lists(st.one_of(st.integers(0, 12), st.integers(0, 999)), min_size=5, max_size=5, unique=True))
    inst = np.zeros((h, w), np.int32)
    for c in set(inst_labels):
        if c >= nlab:
            continue
        sel = lab == c
        if draw(st.sampled_from([True, True, True, False])):
            inst[sel] = c * 1000 + np.array(nums)[patches[sel]]
            for p in gone:
                inst[sel & (patches == p)] = 0
    if kind == "city":
        sel = inst == 0
        inst[sel] = lab[sel]
    nums2 = draw(st.permutations(nums))
    ign = draw(st.sampled_from([[], [], [0], [palette[-1]], [palette[1]] if len(palette) > 1 else []]))
    if kind == "city":
        ign = draw(st.sampled_from([[2, 3], [2, 3], []]))
    return {"lab": lab, "nlab": nlab, "inst": inst, "inst_labels": inst_labels, "ignore": ign, "radius": draw(st.sampled_from([1, 2, 2, 3, 5])),
            "thin": draw(st.sampled_from([False, False, True])), "internal": draw(st.sampled_from([False, False, True])), "cv2": draw(st.sampled_from([True, True, False])),
            "renumber": [list(nums), list(nums2)], "kind": kind}


def check(case, t):
    lab, inst = case["lab"], case["inst"]
    m = np.stack([(lab == i) for i in range(case["nlab"])]).astype(np.uint8)
    keep = m.copy(), inst.copy()
    kw = dict(inst_labelIds=list(case["inst_labels"]), ignore_indices=list(case["ignore"]), radius=case["radius"], thin=case["thin"], internal_only=case["internal"], use_cv2=case["cv2"])
    want = ref.class_edges(m, case["ignore"], case["radius"], case["thin"], case["internal"], inst, case["inst_labels"]).astype(np.uint8)
    got = np.asarray(t.call(loop_instance_mask2edge, mask=m, inst_mask=inst, **kw))
    t.eq_array(got, want, "loop_instance_mask2edge", dtype=np.uint8)
    t.eq_array(m, keep[0], "mask after the call")
    t.eq_array(inst, keep[1], "instance map after the call")
    # renumbering the instances
    old, new = case["renumber"]
    table = dict(zip(old, new))
    inst2 = inst.copy()
    for v in np.unique(inst):
        if v >= 1000:
            inst2[inst == v] = v // 1000 * 1000 + table[v % 1000]
    t.eq_array(t.call(loop_instance_mask2edge, mask=m, inst_mask=inst2, **kw), want, "after renumbering the instances")
    plain = np.asarray(t.call(loop_mask2edge, mask=m, **{k: v for k, v in kw.items() if k != "inst_labelIds"}))
    if not case["thin"]:
        t.check(not (plain.astype(bool) & ~got.astype(bool)).any(), "a class edge pixel is missing from the instance-sensitive edges")
    # every 8-connected part of a class one instance or none
    touching = False
    for c in np.unique(lab):
        parts, n = ndi.label(lab == c, np.ones((3, 3)))
        for p in range(1, n + 1):
            touching |= len(np.unique(inst[parts == p])) > 1
    added = bool((got != plain).any())
    if not touching and not case["ignore"]:
        t.check(not added, "instance edges differ from class edges although no two instances touch")
    t.nontrivial(added)
    t.label("touching instances", touching)
    t.label("labels below 10", case["kind"] == "low")
    t.label("ignored class present", any((lab == i).any() for i in case["ignore"]))
    t.label("renumbered", old != new)
    t.label("over 50 instances", len(np.unique(inst[inst >= 1000])) > 50)
    t.label("instance numbers of three digits", bool((inst % 1000 >= 100).any()))
    t.label("one instance next to pixels of its class without one", touching and len(np.unique(inst[inst >= 1000])) == 1)
    t.label("several instances, none touching", not touching and len(np.unique(inst[inst >= 1000])) > 1)


@st.composite
def large_case(draw):
    """Larger maps, with a grid of up to several hundred instances."""
    c = draw(inst_case())
    f = draw(st.integers(1, 8)), draw(st.integers(1, 8))
    lab = np.kron(c["lab"], np.ones(f, c["lab"].dtype))[:90, :90]
    inst = np.kron(c["inst"], np.ones(f, c["inst"].dtype))[:90, :90]
    if draw(st.booleans()):
        side = draw(st.integers(2, 9))
        yy, xx = np.mgrid[:lab.shape[0], :lab.shape[1]]
        cell = (yy // side) * -(-lab.shape[1] // side) + xx // side
        sel = inst >= 1000
        start, step = draw(st.integers(0, 99)), draw(st.sampled_from([1, 1, 1, 7]))
        inst[sel] = inst[sel] // 1000 * 1000 + (start + step * cell[sel]) % 1000
        old = list(range(1000))
        k = draw(st.sampled_from([0, 1, 500, 999]))
        c["renumber"] = [old, old[k:] + old[:k]]
    c.update(lab=lab, inst=inst, radius=draw(st.sampled_from([1, 2, 2, 4, 7, 11])))
    return c


SUBS = [Sub("edges", inst_case, check, 16000, 160000), Sub("large", large_case, check, 300, 6000)]
