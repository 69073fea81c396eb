"""C17: SBD conversion turns .mat annotations into the documented PNG ground truths."""
import contextlib
import io
import os
import runpy
import sys
import warnings

import numpy as np
from hypothesis import strategies as st
from PIL import Image

from pyEdgeEval.helpers import convert_sbd as S
from vlib import build
from vlib import datasets as ds
from vlib import gens as g
from vlib import ref
from vlib.harness import Sub

RULE = ("SBD .mat files of 11x11 to 28x28 with 0-5 instances in 1-4 categories (also none), written with SciPy and converted; "
        "non-trivial: the expected edges are not empty and instances add to them, or a stored annotation is not empty")
ASSUMPTIONS = ["images have at least two rows and columns (the new loader squeezes arrays)", "the .mat layout is that of the SBD release: GTcls{Boundaries,Segmentation,CategoriesPresent}, GTinst{Segmentation,Boundaries,Categories}"]


def cells(planes):
    from scipy.sparse import csc_matrix

    c = np.empty((len(planes), 1), object)
    for i, p in enumerate(planes):
        c[i, 0] = csc_matrix(np.asarray(p) != 0)
    return c


def save(path, name, fields):
    from scipy.io import savemat

    a = np.empty((1, 1), dtype=[(k, object) for k, _ in fields])
    for k, v in fields:
        a[0, 0][k] = v
    os.makedirs(os.path.dirname(path), exist_ok=True)
    savemat(path, {name: a}, do_compression=True)


def column(v):
    return np.array(v, np.uint8).reshape(-1, 1)


def save_cls(path, bdry, seg, present):
    save(path, "GTcls", [("Boundaries", cells(bdry)), ("Segmentation", seg), ("CategoriesPresent", column(present))])


def save_inst(path, bdry, seg, cats):
    save(path, "GTinst", [("Segmentation", seg), ("Boundaries", cells(bdry)), ("Categories", column(cats))])


@st.composite
def sample(draw, lo=11, hi=28):
    h, w = draw(st.integers(lo, hi)), draw(st.integers(lo, hi))
    cats = draw(st.lists(st.integers(1, 20), min_size=0, max_size=4, unique=True))
    pal = [0] + cats
    seg = np.array(pal)[draw(g.blob_labels(h, w, len(pal)))].astype(np.uint8)
    parts = draw(g.blob_labels(h, w, 3))
    inst = np.zeros((h, w), np.uint8)
    icats = []
    todo = [(int(c), p) for c in np.unique(seg) if c for p in range(3)]
    for c, p in draw(st.permutations(todo)):
        sel = (seg == c) & (parts == p)
        if sel.any():
            icats.append(c)
            inst[sel] = len(icats)
    present = sorted(set(int(c) for c in np.unique(seg)) - {0})
    if len(present) > 1 and draw(st.sampled_from([False] * 5 + [True])):
        present = present[1:]
    return {"seg": seg, "inst": inst, "icats": icats, "present": present}


def bordered(seg):
    out = seg.copy()
    inner = np.zeros(seg.shape, bool)
    inner[5:-5, 5:-5] = True
    out[~inner] = 21
    return out


def inst_map(s):
    out = np.zeros(s["seg"].shape, np.int32)
    for i, c in enumerate(s["icats"]):
        if c in s["present"]:
            out[s["inst"] == i + 1] = c * 1000 + s["icats"][:i].count(c)
    return out


def planes(s, radius, thin, is_):
    seg = bordered(s["seg"])
    m = np.stack([seg == i for i in range(22)])
    e = ref.class_edges(m, [21], radius, thin, False, inst_map(s) if is_ else None, list(range(1, 21)))
    return e[1:21]


@st.composite
def routine_case(draw):
    s = draw(sample())
    s.update(radius=draw(st.sampled_from([None, 1, 2, 2, 3, 4])), thin=draw(st.booleans()), segs=draw(st.booleans()), custom=draw(st.booleans()),
             name=draw(st.sampled_from(["2008_000051", "x", "a.b"])))
    return s


def put(s, d, name):
    z = np.zeros((20,) + s["seg"].shape)
    save_cls(os.path.join(d, "cls_orig", name + ".mat"), z, s["seg"], s["present"])
    save_inst(os.path.join(d, "inst_orig", name + ".mat"), np.zeros((len(s["icats"]),) + s["seg"].shape), s["inst"], s["icats"])


def files(d):
    return {os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs}


def check_png(t, path, want, what):
    t.check(os.path.exists(path), lambda: "%s was not written" % what)
    t.eq_array(np.array(Image.open(path)).astype(np.int64), np.asarray(want).astype(np.int64), what)


def check_sample(t, s, out, name, suf, radius, thin):
    for is_ in (False, True):
        want = planes(s, 1 if thin else radius, thin, is_)
        check_png(t, os.path.join(out, name + suf["is" if is_ else "plain"]), ds.rgb_encode(want), "%s edges of %s" % ("instance-sensitive" if is_ else "class", name))
    return want


def check_segs(t, s, out, name, suf):
    seg = bordered(s["seg"])
    check_png(t, os.path.join(out, name + suf["label"]), seg, "label map")
    check_png(t, os.path.join(out, name + suf["train"]), np.where((seg >= 1) & (seg <= 20), seg.astype(int) - 1, 255), "train-id map")
    check_png(t, os.path.join(out, name + suf["inst"]), inst_map(s), "instance map")


def check_routine(case, t):
    d = t.tmp()
    name = case["name"]
    put(case, d, name)
    out = os.path.join(d, "out")
    os.makedirs(out)
    suf = {"plain": "_edge.png", "is": "_isedge.png", "label": "_labelIds.png", "train": "_trainIds.png", "inst": "_instanceIds.png"}
    kw = dict(save_segs=case["segs"], thin=case["thin"])
    if case["custom"]:
        suf = {"plain": "-e.png", "is": "-i.png", "label": "_l.png", "train": "_t.png", "inst": "_n.png"}
        kw.update(edge_suffix="-e.png", isedge_suffix="-i.png", label_suffix="_l.png", train_suffix="_t.png", inst_suffix="_n.png")
    if case["radius"] is not None:
        kw["radius"] = case["radius"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t.call(S.routine, name, d, out, **kw)
    want = check_sample(t, case, out, name, suf, case["radius"] or 2, case["thin"])
    if case["segs"]:
        check_segs(t, case, out, name, suf)
    exp = {name + suf[k] for k in (suf if case["segs"] else ("plain", "is"))}
    t.check(files(out) == exp, lambda: "files written: %r, expected %r" % (sorted(files(out)), sorted(exp)))
    t.nontrivial(bool((want != planes(case, 1 if case["thin"] else case["radius"] or 2, case["thin"], False)).any()))
    t.label("no category", not case["present"])
    t.label("one instance", len(case["icats"]) == 1)
    t.label("thin", case["thin"])


@st.composite
def load_case(draw):
    h, w = draw(g.dims(2, 14))
    n = draw(st.integers(0, 4))
    present = draw(st.lists(st.integers(1, 20), min_size=min(n, 1), max_size=4, unique=True))
    s = {"seg": draw(g.levels(h * w, 21)).reshape(h, w).astype(np.uint8), "inst": draw(g.levels(h * w, n + 1)).reshape(h, w).astype(np.uint8),
         "present": present, "icats": draw(st.lists(st.sampled_from(present or [1]) if draw(st.booleans()) else st.integers(1, 20), min_size=n, max_size=n)),
         "bdry": np.stack([draw(g.noise(h, w)) if draw(st.booleans()) else np.zeros((h, w), bool) for _ in range(20)]).astype(np.uint8),
         "ibdry": np.stack([np.zeros((h, w), bool)] + [draw(g.bitmap(h, w)) for _ in range(n)])[1:].astype(np.uint8)}
    return s


def check_load(case, t):
    d = t.tmp()
    c, i = os.path.join(d, "c.mat"), os.path.join(d, "i.mat")
    save_cls(c, case["bdry"], case["seg"], case["present"])
    save_inst(i, case["ibdry"], case["inst"], case["icats"])
    for new in (False, True):
        for fn, p, b, s, k in ((S.load_sbd_gt_cls_mat, c, case["bdry"], case["seg"], case["present"]), (S.load_sbd_gt_inst_mat, i, case["ibdry"], case["inst"], case["icats"])):
            w = "%s(new_loader=%r) " % (fn.__name__, new)
            bd, sg, ct = t.call(fn, p, new)
            t.eq_array(bd, b, w + "boundaries", dtype=np.uint8)
            t.eq_array(sg, s, w + "segmentation")
            t.check(np.asarray(ct).ndim == 1 and [int(v) for v in ct] == list(k), lambda: w + "categories %r, stored %r" % (ct, k))
        ok = all(k in case["present"] for k in case["icats"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for fn, args, both in ((S.load_instance_insensitive_gt, (c,), case["bdry"]), (S.load_instance_sensitive_gt, (c, i), None)):
                w = "%s(new_loader=%r) " % (fn.__name__, new)
                if both is None:
                    both = case["bdry"].copy()
                    for k, b in zip(case["icats"], case["ibdry"]):
                        both[k - 1] |= b
                    if not ok:
                        t.raises(Exception, fn, *args, new)
                        continue
                bd, sg, ct = t.call(fn, *args, new)
                t.eq_array(bd, both, w + "boundaries", dtype=np.uint8)
                t.eq_array(sg, case["seg"], w + "segmentation")
                t.check([int(v) for v in ct] == list(case["present"]), lambda: w + "categories %r, stored %r" % (ct, case["present"]))
                t.label("instance boundaries added", bool((both != case["bdry"]).any()))
    t.nontrivial(bool(case["bdry"].any()) and len(case["icats"]) > 0)
    t.label("%d instances" % len(case["icats"]))
    t.label("%d categories" % len(case["present"]))


@st.composite
def reanno_case(draw, lo=2, hi=14):
    h, w = draw(g.dims(lo, hi))
    present = draw(st.lists(st.integers(1, 20), min_size=0, max_size=5, unique=True))
    b = np.zeros((2, 20, h, w), bool)
    for c in set(present) | set(draw(st.lists(st.integers(1, 20), max_size=2))):
        b[0, c - 1] = draw(g.bitmap(h, w))
        b[1, c - 1] = draw(g.bitmap(h, w))
    icats = draw(st.lists(st.sampled_from(present), max_size=5)) if present else []
    return {"bdry": b[0].astype(np.uint8), "ibdry": b[1].astype(np.uint8), "present": present, "icats": icats,
            "seg": draw(g.levels(h * w, 21)).reshape(h, w).astype(np.uint8), "custom": draw(st.booleans())}


def put_reanno(s, d, name):
    save_cls(os.path.join(d, "cls", name + ".mat"), s["bdry"], s["seg"], s["present"])
    save_inst(os.path.join(d, "inst", name + ".mat"), s["ibdry"], s["seg"], s["icats"])


def check_reanno_sample(t, s, out, name, e, i):
    both = s["bdry"].copy()
    for c in s["present"]:
        both[c - 1] |= s["ibdry"][c - 1]
    check_png(t, os.path.join(out, name + e), ds.rgb_encode(s["bdry"]), "re-annotated edges")
    check_png(t, os.path.join(out, name + i), ds.rgb_encode(both), "re-annotated instance-sensitive edges")
    return both


def check_reanno(case, t):
    d = t.tmp()
    put_reanno(case, d, "s1")
    out = os.path.join(d, "out")
    os.makedirs(out)
    e, i = ("_E.png", "_I.png") if case["custom"] else ("_reanno_edge.png", "_reanno_isedge.png")
    kw = dict(edge_suffix=e, isedge_suffix=i) if case["custom"] else {}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        t.call(S.reanno_routine, "s1", d, out, **kw)
    both = check_reanno_sample(t, case, out, "s1", e, i)
    t.check(files(out) == {"s1" + e, "s1" + i}, lambda: "files written: %r" % sorted(files(out)))
    t.nontrivial(bool((both != case["bdry"]).any()))
    t.label("instance boundary of an absent category", bool((case["ibdry"][[c for c in range(20) if c + 1 not in case["present"]]]).any()))


@st.composite
def script_case(draw):
    n = draw(st.integers(2, 4))
    re = draw(st.booleans())
    return {"samples": [draw(sample(11, 18)) for _ in range(n)], "split": draw(st.integers(1, n - 1)), "nproc": draw(st.sampled_from([1, 1, 2, 3])),
            "reanno": [[draw(reanno_case()) for _ in range(2)] for _ in range(2)] if re else None, "out": draw(st.sampled_from([None, "gt Eval", "a"]))}


def check_script(case, t):
    d = t.tmp()
    names = ["2008_%06d" % i for i in range(len(case["samples"]))]
    for s, n in zip(case["samples"], names):
        put(s, d, n)
    for split, ns in (("train", names[: case["split"]]), ("val", names[case["split"]:])):
        with open(os.path.join(d, split + ".txt"), "w") as f:
            f.write("".join(n + "\n" for n in ns))
    argv = ["sbd.py", "--root", d, "--nproc", str(case["nproc"])]
    if case["out"]:
        argv += ["-o", case["out"]]
    if case["reanno"]:
        argv.append("--reanno")
        from scipy.io import savemat

        for mode, ss in zip(("raw", "thin"), case["reanno"]):
            r = os.path.join(d, "gt_reanno_" + mode)
            lst = np.empty((2, 1), object)
            for i, s in enumerate(ss):
                put_reanno(s, r, "r%d" % i)
                lst[i, 0] = np.array(["r%d" % i])
            savemat(os.path.join(r, "test.mat"), {"listTest": lst})
    before = files(d)
    old = sys.argv
    sys.argv = argv
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            t.call(runpy.run_path, os.path.join(build.REPO, "scripts", "convert_datasets", "sbd.py"), run_name="__main__")
    finally:
        sys.argv = old
    outn = case["out"] or "gtEval"
    out = os.path.join(d, outn)
    exp = set()
    for s, n in zip(case["samples"], names):
        check_sample(t, s, out, n, {"plain": "_raw_edge.png", "is": "_raw_isedge.png"}, 2, False)
        check_sample(t, s, out, n, {"plain": "_thin_edge.png", "is": "_thin_isedge.png"}, 1, True)
        check_segs(t, s, out, n, {"label": "_labelIds.png", "train": "_trainIds.png", "inst": "_instanceIds.png"})
        exp |= {os.path.join(outn, n + x) for x in ("_raw_edge.png", "_raw_isedge.png", "_thin_edge.png", "_thin_isedge.png", "_labelIds.png", "_trainIds.png", "_instanceIds.png")}
    if case["reanno"]:
        for mode, ss in zip(("raw", "thin"), case["reanno"]):
            for i, s in enumerate(ss):
                e, ie = "_reanno_%s_edge.png" % mode, "_reanno_%s_isedge.png" % mode
                check_reanno_sample(t, s, out, "r%d" % i, e, ie)
                exp |= {os.path.join(outn, "r%d" % i + x) for x in (e, ie)}
        exp.add("reanno_val.txt")
        t.check(open(os.path.join(d, "reanno_val.txt")).read().split("\n") == ["r0", "r1", ""], "reanno_val.txt does not list the re-annotated samples")
    t.check(files(d) - before == exp, lambda: "files written: %r" % sorted((files(d) - before) ^ exp))
    t.nontrivial()
    t.label("reanno", bool(case["reanno"]))
    t.label("%d processes" % case["nproc"])


SUBS = [
    Sub("routine", routine_case, check_routine, 1600, 30000),
    Sub("loaders", load_case, check_load, 1200, 20000),
    Sub("reanno", reanno_case, check_reanno, 800, 15000),
    Sub("script", script_case, check_script, 120, 2000),
    Sub("replaced", lambda: g.replaced(routine_case), g.check_replaced(check_routine), 150, 2000),
    Sub("replaced mats", lambda: g.replaced(load_case), g.check_replaced(check_load), 150, 2000),
]
