"""C18: Cityscapes conversion writes the complete and correct ground truth tree."""
import contextlib
import io
import json
import os
import runpy
import sys

import numpy as np
from hypothesis import strategies as st
from PIL import Image, ImageDraw

from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes, convert_label_to_semantic_edges
from vlib import build
from vlib import datasets as ds
from vlib import gens as g
from vlib import ref
from vlib.harness import Sub

RULE = ("gtFine trees with 0-3 samples per split in 1-2 cities, images of 2x2 to 18x18 with road, sidewalk, vehicles, people and ignored labels, polygons, "
        "distracting files, root paths that themselves contain split and directory names, all formats, radii and process counts; "
        "single files with any subset of the options; non-trivial: some written edge is not empty")
ASSUMPTIONS = ["half-scale raw edges take row floor(y*h/h2) and column floor(x*w/w2) as OpenCV's nearest-neighbour resize does; half-scale thin labels are resized as Pillow does",
               "city directories do not contain 'gtFine'"]

NAMES = {"road": 7, "sidewalk": 8, "building": 11, "person": 24, "persongroup": 24, "car": 26, "cargroup": 26, "ego vehicle": 1, "unlabeled": 0,
         "out of roi": 3, "license plate": -1, "dynamic": 5, "sky": 23, "bicycle": 33, "trailer": 30}


@st.composite
def sample(draw):
    h, w = draw(g.dims(2, draw(st.sampled_from([6, 12, 18]))))
    palette = draw(st.sampled_from([[0, 2, 3, 7, 11, 24, 26, 33], [7, 8, 24], [24, 26, 1, 3], [25, 27, 28, 31, 32, 7]]))
    lab, inst = draw(ds.label_pair(h, w, palette))
    objs = []
    for _ in range(draw(st.integers(0, 4))):
        pts = [[draw(st.integers(0, w - 1)), draw(st.integers(0, h - 1))] for _ in range(draw(st.integers(3, 5)))]
        objs.append([draw(st.sampled_from(sorted(NAMES))), pts, draw(st.sampled_from([False, False, False, True]))])
    return {"lab": lab, "inst": inst, "objs": objs}


@st.composite
def tree_case(draw, nprocs=(1,)):
    tree = {}
    for split, n in (("train", 2), ("val", 3), ("test", 1)):
        tree[split] = []
        for i in range(draw(st.integers(0 if split != "val" else 1, n))):
            city = draw(st.sampled_from(["aachen", "ulm", "val", "train", "lindau"]))
            form = draw(st.sampled_from(["%s_%06d_000019", "%s_%06d_000019", "%s_gtFine_%d", "%s %d.polygons", "%s_labelIds_%06d_edge"]))
            tree[split].append([city, form % (city, i), draw(sample())])
    return {"tree": tree, "root": draw(st.sampled_from(["cs", "cs", "gtFine", "a gtFine b/root", "train/x", "data_gtFine", "val.gtEval", "gtEval/cs"])),
            "proc": draw(st.sampled_from(["gtEval", "gtEval", "gtProc", "gtFine_proc", "out/gt", "a b"])), "is": draw(st.booleans()),
            "ext": draw(st.sampled_from(["png", "png", "tif", "bin"])), "half": draw(st.sampled_from([True, True, False, None])),
            "train_radius": draw(st.sampled_from([2, 2, 1, 3])), "raw_val_radius": draw(st.sampled_from([2, 2, 1, 3, 4])), "nproc": draw(st.sampled_from(nprocs)),
            "junk": draw(st.booleans()), "script": draw(st.sampled_from([False, False, True])), "relative": draw(st.booleans())}


def label_edges(lab, inst, radius, thin):
    m = np.stack([lab == i for i in range(34)])
    e = ref.class_edges(m, [2, 3], radius, thin, False, inst, ds.INST if inst is not None else ())
    return np.stack([e[ds.LABEL[k]] for k in range(19)])


def subsample(e):
    h, w = e.shape[1:]
    h2, w2 = ds.target_size((h, w), 0.5)
    ys = [min(y * h // h2, h - 1) for y in range(h2)]
    xs = [min(x * w // w2, w - 1) for x in range(w2)]
    return e[:, ys][:, :, xs]


def expected_tree(case):
    """{path below the processed directory: edge planes or label map}"""
    out = {}
    r1, r2, s = case["train_radius"], case["raw_val_radius"], case["is"]
    half = case["half"] in (True, None)
    ext = case["ext"]
    for split in ("train", "val"):
        for city, name, x in case["tree"][split]:
            base = os.path.join(split, city, name)
            lab = np.full(x["lab"].shape, 255, np.uint8)
            img = Image.fromarray(lab)
            d = ImageDraw.Draw(img)
            for n, pts, deleted in x["objs"]:
                if not deleted and NAMES[n] >= 0:
                    d.polygon([tuple(p) for p in pts], fill=ds.TRAIN.get(NAMES[n], 255))
            out[base + "_gtFine_labelTrainIds.png"] = np.array(img)
            inst = x["inst"].astype(np.int64) if s else None
            kind = "isedge" if s else "edge"
            if split == "train":
                out[base + "_gtProc_%s.%s" % (kind, ext)] = label_edges(x["lab"], inst, r1, False)
                continue
            raw = label_edges(x["lab"], inst, r2, False)
            out[base + "_gtProc_raw_%s.%s" % (kind, ext)] = raw
            out[base + "_gtProc_thin_%s.%s" % (kind, ext)] = label_edges(x["lab"], inst, 1, True)
            if half:
                h2, w2 = ds.target_size(x["lab"].shape, 0.5)
                out[base + "_gtProc_half_raw_%s.%s" % (kind, ext)] = subsample(raw)
                out[base + "_gtProc_half_thin_%s.%s" % (kind, ext)] = label_edges(
                    ref.resize_nearest(x["lab"], w2, h2), None if inst is None else ref.resize_nearest(x["inst"], w2, h2).astype(np.int64), 1, True)
    return out


def read_edges(path, shape):
    if path.endswith(".png"):
        a = np.array(Image.open(path)).astype(np.int64)
        v = a[..., 0] * 65536 + a[..., 1] * 256 + a[..., 2]
    elif path.endswith(".tif"):
        v = np.array(Image.open(path)).astype(np.int64)
    else:
        v = np.fromfile(path, "<u4").astype(np.int64)
        if v.size != shape[0] * shape[1]:
            return None
        v = v.reshape(shape)
    return v


def write_tree(case, root):
    gt = os.path.join(root, "gtFine")
    for split, xs in case["tree"].items():
        os.makedirs(os.path.join(gt, split), exist_ok=True)
        for city, name, x in xs:
            base = os.path.join(gt, split, city, name)
            h, w = x["lab"].shape
            ds.write_img(base + "_gtFine_labelIds.png", x["lab"])
            ds.write_img(base + "_gtFine_instanceIds.png", x["inst"])
            with open(base + "_gtFine_polygons.json", "w") as f:
                json.dump({"imgHeight": h, "imgWidth": w, "objects": [dict(label=n, polygon=p, **({"deleted": 1} if dl else {})) for n, p, dl in x["objs"]]}, f)
            if case["junk"]:
                ds.write_img(base + "_gtFine_color.png", x["lab"])
                ds.write_img(base + "_gtFine_labelIds.png.bak.png", x["lab"])
                with open(base + "_polygons.txt", "w") as f:
                    f.write("x")
                with open(os.path.join(gt, split, city, ".hidden_gtFine_labelIds.png"), "w") as f:
                    f.write("x")


def snapshot(d):
    out = {}
    for r, dirs, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = fh.read()
        for f in dirs:
            out[os.path.relpath(os.path.join(r, f), d) + "/"] = b""
    return out


def check(case, t):
    if case["script"]:
        case = dict(case, train_radius=2, raw_val_radius=2)
    d = t.tmp()
    root = os.path.join(d, case["root"])
    write_tree(case, root)
    before = snapshot(d)
    arg = root
    cwd = os.getcwd()
    old = sys.argv
    try:
        if case["relative"]:
            os.chdir(d)
            arg = case["root"]
        with contextlib.redirect_stdout(io.StringIO()):
            if case["script"]:
                sys.argv = ["cityscapes.py", "--root", arg, "-o", case["proc"], "--ext", case["ext"], "--nproc", str(case["nproc"])]
                if not case["is"]:
                    sys.argv.append("--nonIS")
                if case["half"] is False:
                    sys.argv.append("--only-full-scale")
                t.call(runpy.run_path, os.path.join(build.REPO, "scripts", "convert_datasets", "cityscapes.py"), run_name="__main__")
            else:
                kw = {} if case["half"] is None else {"save_half_val": case["half"]}
                t.call(convert_cityscapes, case["proc"], cityscapes_root=arg, inst_sensitive=case["is"], ext=case["ext"], train_radius=case["train_radius"],
                       raw_val_radius=case["raw_val_radius"], nproc=case["nproc"], **kw)
    finally:
        sys.argv = old
        os.chdir(cwd)
    after = snapshot(d)
    proc = os.path.relpath(os.path.join(root, case["proc"]), d)
    splits = os.path.relpath(os.path.join(root, "splits"), d)
    want = expected_tree(case)
    paths = {os.path.join(proc, k): v for k, v in want.items()}
    for p, v in before.items():
        t.check(after.get(p) == v, lambda: "%s was changed or removed" % p)
    new = {p for p in after if p not in before and not p.endswith("/")}
    texts = {os.path.join(splits, s + ".txt") for s in ("train", "val", "test")}
    exp = set(paths) | texts
    t.check(new == exp, lambda: "files missing: %r, unexpected: %r" % (sorted(exp - new), sorted(new - exp)))
    for p in after:
        if p.endswith("/") and p not in before:
            q = p.rstrip("/")
            t.check(any(x.startswith(p) for x in exp) or q == proc or proc.startswith(p), lambda: "unexpected directory %s" % p)
    for split, xs in case["tree"].items():
        lines = after[os.path.join(splits, split + ".txt")].decode().split("\n")
        t.check(lines[-1] == "" and sorted(lines[:-1]) == sorted(c + "/" + n for c, n, _ in xs), lambda: "%s.txt lists %r" % (split, lines))
    some = False
    for p, v in sorted(paths.items()):
        full = os.path.join(d, p)
        if p.endswith("labelTrainIds.png"):
            t.eq_array(np.array(Image.open(full)), v, os.path.basename(p))
            continue
        code = sum(v[k].astype(np.int64) << k for k in range(19))
        got = read_edges(full, v.shape[1:])
        t.check(got is not None, lambda: "%s has the wrong size" % p)
        t.eq_array(got, code, os.path.basename(p))
        some |= bool(code.any())
    t.nontrivial(some)
    t.label(case["ext"])
    t.label("root contains gtFine", "gtFine" in case["root"])
    t.label("half scale", case["half"] in (True, None))
    t.label("instance-sensitive", case["is"])
    t.label("odd size at half scale", any(x["lab"].shape[0] % 2 for _, _, x in case["tree"]["val"]))
    t.label("script", case["script"])
    t.label("%d processes" % case["nproc"])


@st.composite
def single_case(draw):
    kw = {}
    for k, v in (("inst_sensitive", st.booleans()), ("radius", st.sampled_from([1, 2, 3, 4])), ("thin", st.booleans()), ("seal", st.booleans()), ("proc_dir", st.sampled_from(["gtEval", "gt X", "gtFine2"])),
                 ("scale", st.sampled_from([1.0, 1, 0.5, 0.5, 0.25, 0.3, 0.7, 0.9, 0.45])), ("edge_suffix", st.sampled_from([".png", "_e.tif", "_gtProc_raw_edge.bin", "_gtProc_isedge.png"]))):
        if draw(st.booleans()):
            kw[k] = draw(v)
    if kw.get("thin") and draw(st.sampled_from([True, True, True, False])):
        kw["radius"] = 1
    s = draw(sample())
    return {"lab": s["lab"], "inst": s["inst"], "kw": kw, "suffixes": draw(st.sampled_from([False, False, True])), "bad": draw(st.sampled_from([None] * 12 + ["ext", "label", "inst"]))}


def check_single(case, t):
    """One file, with any of the documented options left at its default."""
    import cv2

    d = t.tmp()
    kw = dict(case["kw"])
    o = dict(dict(inst_sensitive=True, radius=2, thin=False, seal=True, proc_dir="gtEval", scale=1.0, edge_suffix="_gtProc_edge.png"), **kw)
    ls, ins = "_gtFine_labelIds.png", "_gtFine_instanceIds.png"
    if case["suffixes"]:
        ls, ins = "-lab.png", "-inst.png"
        kw.update(label_suffix=ls, inst_suffix=ins)
    base = os.path.join(d, "gtFine", "val", "ulm", "s_1")
    lab, inst = case["lab"], case["inst"]
    if case["bad"] != "label":
        ds.write_img(base + ls, lab)
    if case["bad"] != "inst":
        ds.write_img(base + ins, inst)
    if case["bad"] == "ext":
        kw["edge_suffix"] = o["edge_suffix"] = "_x.jpg"
    out = os.path.join(d, o["proc_dir"], "val", "ulm", "s_1" + o["edge_suffix"])
    h, w = lab.shape
    h2, w2 = ds.target_size((h, w), o["scale"])
    if case["bad"] in ("ext", "label") or (case["bad"] == "inst" and o["inst_sensitive"]) or (o["thin"] and o["radius"] != 1):
        t.raises(Exception, convert_label_to_semantic_edges, base + ls, **kw)
        t.check(not os.path.exists(out), "a file was written although the call failed")
        t.label("rejected")
        return
    if min(h2, w2) < 1:
        return
    before = set(snapshot(d))
    t.call(convert_label_to_semantic_edges, base + ls, **kw)
    new = {p for p in snapshot(d) if p not in before and not p.endswith("/")}
    t.check(new == {os.path.relpath(out, d)}, lambda: "files written: %r" % sorted(new))
    early = o["scale"] < 1 and (o["thin"] or not o["seal"])
    if early:
        lab, inst = ref.resize_nearest(lab, w2, h2), ref.resize_nearest(inst, w2, h2)
    e = label_edges(lab, inst.astype(np.int64) if o["inst_sensitive"] else None, o["radius"], o["thin"])
    if o["scale"] < 1 and not early:
        idx = cv2.resize(np.arange(h * w, dtype=np.float32).reshape(h, w), (w2, h2), interpolation=cv2.INTER_NEAREST).astype(int)
        e = e.reshape(19, -1)[:, idx]
    got = read_edges(out, e.shape[1:])
    t.check(got is not None and got.shape == e.shape[1:], lambda: "the edges have the wrong size: %r" % (None if got is None else got.shape,))
    t.eq_array(got, sum(e[k].astype(np.int64) << k for k in range(19)), "edges of a single file with %r" % (case["kw"],))
    t.nontrivial(bool(e.any()))
    t.label("scaled before" if early else "scaled after" if o["scale"] < 1 else "full scale")


SUBS = [
    Sub("single", single_case, check_single, 2500, 40000),
    Sub("tree", tree_case, check, 1200, 20000),
    Sub("replaced", lambda: g.replaced(tree_case), g.check_replaced(check), 100, 2000),
    Sub("processes", lambda: tree_case((2, 3)), check, 120, 2000),
]
