"""C35: comparing converted Cityscapes edges with the MATLAB ones reports every difference and nothing else."""
import contextlib
import io
import os
import re
import runpy
import sys

import numpy as np
from hypothesis import strategies as st
from PIL import Image

from pyEdgeEval.helpers import convert_cityscapes as M
from vlib import build
from vlib import datasets as ds
from vlib import gens as g
from vlib.harness import Sub

RULE = ("pairs of processed Cityscapes trees with 0-4 edge files per split in 1-2 cities whose pixels differ in 0-9 chosen values, distracting files, root paths that contain the directory names, 1-3 processes; "
        "non-trivial: one file differs and another one is equal, or a file differs in more and another in fewer values than are tolerated")
ASSUMPTIONS = ["both trees have the same files of the same size", "only instance-insensitive png edges are compared, as documented; single files may be tif"]


@st.composite
def tree_case(draw):
    files = {}
    for split in ("train", "val"):
        files[split] = []
        for i in range(draw(st.integers(0, 4))):
            h, w = draw(g.dims(2, 9))
            n = draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5, 9]))
            files[split].append([draw(st.sampled_from(["aachen", "ulm", "train"])), draw(st.sampled_from(["%s_%06d_000019", "%s_%d_gtProc_x"])) % ("s", i), h, w, draw(st.integers(0, 999)), n])
    return {"files": files, "root": draw(st.sampled_from(["cs", "cs", "gtProc", "a/gtProc/cs", "x_gtProc_y", "out"])), "out": draw(st.sampled_from(["gtEval", "gtProc2", "out", "o/p"])),
            "nproc": draw(st.sampled_from([1, 1, 1, 2, 3])), "script": draw(st.sampled_from([False, False, True])), "junk": draw(st.booleans()), "mat": draw(st.sampled_from(["gtProc", "gtProc", "matlab"]))}


def pair(f):
    _, _, h, w, seed, n = f
    r = np.random.RandomState(seed)
    a = r.randint(0, 256, (h, w, 3)).astype(np.uint8)
    a[r.rand(h, w) < 0.5] = 0
    b = a.copy().ravel()
    idx = r.permutation(b.size)[:n]
    b[idx] = b[idx] ^ r.choice([1, 128, 255, 7], len(idx)).astype(np.uint8)
    return a, b.reshape(a.shape)


def check_tree(case, t):
    d = t.tmp()
    root = os.path.join(d, case["root"])
    mat = "gtProc" if case["script"] else case["mat"]
    if case["out"] == mat:
        return
    want = {}
    lines = set()
    for split, fs in case["files"].items():
        os.makedirs(os.path.join(root, mat, split))
        os.makedirs(os.path.join(root, case["out"], split))
        want[split] = 0
        for f in fs:
            a, b = pair(f)
            p = os.path.join(root, mat, split, f[0], f[1] + "_gtProc_edge.png")
            ds.write_img(p, a)
            ds.write_img(os.path.join(root, case["out"], split, f[0], f[1] + ("_gtProc_edge.png" if split == "train" else "_gtProc_raw_edge.png")), b)
            k = int((a != b).sum())
            want[split] += k > 0
            if k > 3:
                lines.add((os.path.normpath(p), k))
            if case["junk"]:
                ds.write_img(os.path.join(root, mat, split, f[0], f[1] + "_gtProc_isedge.png"), b)
                ds.write_img(os.path.join(root, case["out"], split, f[0], f[1] + "_gtProc_thin_edge.png"), a)
                if split == "val":
                    ds.write_img(os.path.join(root, case["out"], split, f[0], f[1] + "_gtProc_edge.png"), 255 - a)
                with open(os.path.join(root, mat, split, f[0], ".x_gtProc_edge.png"), "w") as fh:
                    fh.write("x")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if case["script"]:
            old = sys.argv
            sys.argv = ["cityscapes.py", "--root", root, "-o", case["out"], "--test_mode", "--nonIS", "--nproc", str(case["nproc"])]
            try:
                t.call(runpy.run_path, os.path.join(build.REPO, "scripts", "convert_datasets", "cityscapes.py"), run_name="__main__")
            finally:
                sys.argv = old
        else:
            kw = {} if mat == "gtProc" else {"matlab_proc_dirname": mat}
            t.call(M.test_against_matlab, case["out"], cityscapes_root=root, inst_sensitive=False, nproc=case["nproc"], **kw)
    text = out.getvalue()
    for split in ("train", "val"):
        m = re.findall(r"\[%s\] total missed:\s*(\d+)" % split, text)
        t.check(m == [str(want[split])], lambda: "reported %r differing %s files, expected %d" % (m, split, want[split]))
    got = []
    for line in text.split("\n"):
        m = re.fullmatch(r"(.*_gtProc_edge\.png) (\d+)", line)
        if m:
            got.append((os.path.normpath(m.group(1)), int(m.group(2))))
    t.check(len(got) == len(set(got)) and set(got) == lines, lambda: "reported %r, expected %r" % (sorted(got), sorted(lines)))
    t.raises((AssertionError, ValueError, OSError), M.test_against_matlab, case["out"], cityscapes_root=root, inst_sensitive=True)
    total = sum(len(v) for v in case["files"].values())
    ns = [f[5] for fs in case["files"].values() for f in fs]
    t.nontrivial(0 < sum(want.values()) < total or (max(ns, default=0) > 3 and min(ns, default=9) <= 3))
    t.label("script", case["script"])
    t.label("parallel", case["nproc"] > 1)
    t.label("directory name in the root", mat in case["root"])


@st.composite
def file_case(draw):
    h, w = draw(g.dims(1, 9))
    return {"f": ["aachen", "x", h, w, draw(st.integers(0, 999)), draw(st.integers(0, 9))], "ext": draw(st.sampled_from([".png", ".tif"])), "root": draw(st.sampled_from(["cs", "gtProc/cs", "m/q"])),
            "orig": draw(st.sampled_from(["gtProc", "m"])), "test": draw(st.sampled_from(["gtEval", "n", "m2"])), "sfx": draw(st.sampled_from(["_edge", "_gtProc_raw_edge"])), "bad": draw(st.booleans())}


def check_file(case, t):
    d = os.path.join(t.tmp(), case["root"])
    a, b = pair(case["f"])
    ext = case["ext"]
    if ext == ".tif":
        r = np.random.RandomState(case["f"][4])
        a = a.astype(np.int64)
        a = (a[..., 0] << 16) + (a[..., 1] << 8) + a[..., 2]
        b = a.copy().ravel()
        idx = r.permutation(b.size)[:case["f"][5]]
        b[idx] ^= r.choice([1, 1 << 18, 1 << 9], len(idx))
        b = b.reshape(a.shape)
    p = os.path.join(d, case["orig"], "val", "aachen", "x_gtProc_edge" + ext)
    q = os.path.join(d, case["test"], "val", "aachen", "x" + case["sfx"] + ext)
    for path, x in ((p, a), (q, b)):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        Image.fromarray(x.astype(np.uint8) if ext == ".png" else x.astype(np.int32)).save(path)
    kw = dict(orig_dir=case["orig"], test_dir=case["test"], orig_suffix="_gtProc_edge" + ext, test_suffix=case["sfx"] + ext)
    n = int((a != b).sum())
    got = t.call(M.test_edges, p, **kw)
    t.check(tuple(got) == (p, n, n == 0), lambda: "reported %r, expected %r" % (got, (p, n, n == 0)))
    if case["bad"]:
        x = os.path.splitext(p)[0] + ".bmp"
        t.raises(ValueError, M.test_edges, x, **kw)
    t.nontrivial(n > 0)
    t.label(ext)


SUBS = [Sub("replaced", lambda: g.replaced(tree_case), g.check_replaced(check_tree), 100, 1500), Sub("trees", tree_case, check_tree, 800, 15000), Sub("files", file_case, check_file, 1500, 30000)]
