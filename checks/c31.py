"""C31: suppressing a directory of predictions writes exactly the suppressed image of every prediction."""
import contextlib
import io
import os

import cv2
import numpy as np
from hypothesis import strategies as st
from scipy.io import savemat

from checks import c05
from pyEdgeEval.preprocess.nms import fast_nms as FN
from vlib import datasets as ds
from vlib import gens as g
from vlib.harness import Sub

try:
    from importlib import import_module

    M = import_module("pyEdgeEval.preprocess.nms.fast_nms")
except ImportError:
    M = FN

RULE = ("directories of 0-6 predictions (uint8 and float images of 2x2 to 24x24; .png, .npy, .mat; names with dots and shared prefixes), with and without existing outputs, "
        "1-3 model names, foreign files; non-trivial: an output that keeps some but not all responses was written, and (for directories) two files or an existing output were there")
ASSUMPTIONS = ["fast_nms itself is judged by C05", "predictions in one directory have different names without extension; images have at least 2 rows and columns"]

NAMES = ["1", "100", "100007", "a.b", "a", "a.b.c", "edge_1", "x y", "A"]


def want_of(img):
    f = img / 255.0 if img.dtype == np.uint8 else img
    out = np.asarray(FN(f, r=1, s=5, m=1.01), np.float64)
    return np.round(np.clip(out, 0, 1) * 255).astype(np.uint8)


@st.composite
def image(draw, dtypes):
    h, w = draw(g.dims(2, draw(st.sampled_from([8, 24]))))
    a = draw(c05.image(h, w))
    dt = draw(st.sampled_from(dtypes))
    return a if dt == "uint8" else (a / 255.0 * draw(st.sampled_from([1, 1, 1.3])) - draw(st.sampled_from([0, 0, 0.1]))).astype(dt)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def read_png(t, p):
    a = cv2.imread(p, cv2.IMREAD_UNCHANGED)
    t.check(a is not None, lambda: "%s is not an image" % os.path.basename(p))
    return a


@st.composite
def one_case(draw):
    return {"img": draw(image(["uint8", "float64", "float32"])), "save": draw(st.sampled_from(["yes", "default", "no", "no path", "exists", "bad"])),
            "ext": draw(st.sampled_from([".jpg", "", ".PNG", ".png.npy"]))}


def check_one(case, t):
    d = t.tmp()
    img = case["img"]
    keep = img.copy()
    p = os.path.join(d, "o.u.t.png")
    want = want_of(img)
    mode = case["save"]
    if mode == "bad":
        t.raises((AssertionError, ValueError, OSError), M.nms_process_one_image, img, os.path.join(d, "out" + case["ext"]))
        t.check(os.listdir(d) == [], "something was written for a rejected path")
        return
    if mode == "exists":
        with open(p, "w") as f:
            f.write("old")
    if mode in ("yes", "exists"):
        out = t.call(M.nms_process_one_image, img, p, True)
    elif mode == "default":
        out = t.call(M.nms_process_one_image, img, save_path=p)
    elif mode == "no":
        out = t.call(M.nms_process_one_image, img, p, save=False)
    else:
        out = t.call(M.nms_process_one_image, img, save=False)
    t.eq_array(out, want, "returned image", dtype=np.uint8)
    t.eq_array(img, keep, "input image")
    if mode in ("no", "no path"):
        t.check(os.listdir(d) == [], "a file was written without save")
    else:
        t.check(os.listdir(d) == ["o.u.t.png"], lambda: "wrote %r" % os.listdir(d))
        t.eq_array(read_png(t, p), want, "saved image", dtype=np.uint8)
    t.nontrivial(bool(want.any()) and bool(((want == 0) & (img > 0)).any()))
    t.label(mode)


@st.composite
def dir_case(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=0, max_size=5, unique=True))
    fmt = draw(st.sampled_from([".mat", ".npy", ".png"]))
    files = [{"name": n, "img": draw(image(["uint8"] if fmt == ".png" else ["uint8", "float64", "float32"]))} for n in names]
    models = draw(st.lists(st.sampled_from(["hed", "a.b", "m 1"]), min_size=1, max_size=3, unique=True))
    return {"files": files, "fmt": fmt, "models": models, "aslist": draw(st.booleans()), "exist": [[m, n] for m in models for n in names if draw(st.sampled_from([False, False, True]))],
            "foreign": draw(st.booleans()), "mk": draw(st.sampled_from(["missing", "nested", "present"])), "key": draw(st.sampled_from(["edge", "result"])),
            "rel": draw(st.booleans()), "again": draw(st.booleans())}


def put(d, f, fmt, key):
    p = os.path.join(d, f["name"] + fmt)
    if fmt == ".png":
        ds.write_img(p, f["img"])
    elif fmt == ".npy":
        np.save(p, f["img"])
    else:
        savemat(p, {key: f["img"], "other": np.ones((3, 3))})


def judge_dir(t, d, files, exist, extra=()):
    got = sorted(os.listdir(d))
    names = sorted({f["name"] + ".png" for f in files} | set(extra))
    t.check(got == names, lambda: "the output directory has %r, expected %r" % (got, names))
    some = False
    for f in files:
        p = os.path.join(d, f["name"] + ".png")
        if f["name"] in exist:
            t.check(open(p, "rb").read() == b"old " + f["name"].encode(), lambda: "the existing output of %r was replaced" % f["name"])
            continue
        want = want_of(f["img"])
        t.eq_array(read_png(t, p), want, "output of %r" % f["name"], dtype=np.uint8)
        some = some or (bool(want.any()) and bool(((want == 0) & (f["img"] > 0)).any()))
    return some


def prepare(case, t, models):
    root = t.tmp()
    src = os.path.join(root, "in")
    dst = {"missing": os.path.join(root, "out"), "nested": os.path.join(root, "o", "p", "out"), "present": os.path.join(root, "out")}[case["mk"]]
    os.makedirs(src)
    for f in case["files"]:
        put(src, f, case["fmt"], case["key"])
    if case["mk"] == "present":
        os.makedirs(dst)
    for m, n in case["exist"]:
        if m not in models and models != [None]:
            continue
        d = dst if models == [None] else os.path.join(dst, m)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, n + ".png"), "wb") as fh:
            fh.write(b"old " + n.encode())
    snap = {n: open(os.path.join(src, n), "rb").read() for n in os.listdir(src)}
    return root, src, dst, snap


def check_results(case, t):
    root, src, dst, snap = prepare(case, t, [None])
    fmt = case["fmt"]
    seen = []

    def loader(p):
        seen.append(os.path.abspath(p))
        if fmt == ".png":
            return cv2.imread(p, cv2.IMREAD_GRAYSCALE)
        if fmt == ".npy":
            return np.load(p)
        from scipy.io import loadmat

        return loadmat(p)[case["key"]]

    exist = {n for _, n in case["exist"]}
    cwd = os.getcwd()
    a, b = src, dst
    if case["rel"]:
        os.chdir(root)
        a, b = os.path.relpath(src, root), os.path.relpath(dst, root) + "/"
    try:
        with quiet():
            for _ in range(2 if case["again"] else 1):
                t.call(M.nms_results, a, b, loader)
        t.raises((AssertionError, ValueError, OSError), M.nms_results, a + "_missing", b, loader)
    finally:
        os.chdir(cwd)
    want_seen = sorted(os.path.join(src, f["name"] + fmt) for f in case["files"] if f["name"] not in exist)
    t.check(sorted(seen) == want_seen, lambda: "loaded %r, expected %r" % (sorted(seen), want_seen))
    some = judge_dir(t, dst, case["files"], exist)
    t.check({n: open(os.path.join(src, n), "rb").read() for n in os.listdir(src)} == snap, "the predictions changed")
    t.nontrivial(some and (len(case["files"]) > 1 or bool(exist)))
    t.label("existing output", bool(exist))
    t.label(fmt)


def check_all(case, t):
    if case["fmt"] == ".png":
        case = dict(case, fmt=".npy")
    models = case["models"] if case["aslist"] else case["models"][:1]
    root, src, dst, snap = prepare(case, t, models)
    fmt = case["fmt"]
    foreign = []
    if case["foreign"]:
        other = ".npy" if fmt == ".mat" else ".mat"
        with open(os.path.join(src, "x" + fmt[1:]), "wb") as f:  # a valid prediction, but not a file of the format
            np.save(f, np.ones((9, 9))) if fmt == ".npy" else savemat(f, {case["key"]: np.ones((9, 9))})
        for n in ("other" + other, "notes.txt", "z" + fmt + ".bak", "README"):
            with open(os.path.join(src, n), "w") as f:
                f.write("x")
            foreign.append(n)
    kw = {"key": case["key"]} if fmt == ".mat" else {}
    if fmt != ".mat" or case["again"]:
        kw["file_format"] = fmt
    with quiet():
        for _ in range(2 if case["again"] else 1):
            t.call(M.nms_all_results, models if case["aslist"] else models[0], src, dst, **kw)
    some = False
    t.check(sorted(os.listdir(dst)) == sorted(models), lambda: "outputs for %r" % os.listdir(dst))
    for m in models:
        some = judge_dir(t, os.path.join(dst, m), case["files"], {n for k, n in case["exist"] if k == m}) or some
    for n, v in snap.items():
        t.check(open(os.path.join(src, n), "rb").read() == v, "the predictions changed")
    t.raises((AssertionError, ValueError, OSError), M.nms_all_results, models, src, dst, key="edge", file_format=".png")
    if fmt == ".mat" and any([m, f["name"]] not in case["exist"] for m in models for f in case["files"]):
        t.raises((AssertionError, ValueError, OSError), M.nms_all_results, "new", src, dst)
    t.nontrivial(some and (len(case["files"]) > 1 or bool(case["exist"])))
    t.label("existing output", bool(case["exist"]))
    t.label("several models", len(models) > 1)
    t.label(fmt)


SUBS = [Sub("replaced results", lambda: g.replaced(dir_case), g.check_replaced(check_results), 80, 1200),
        Sub("replaced all", lambda: g.replaced(dir_case), g.check_replaced(check_all), 80, 1200),
        Sub("one", one_case, check_one, 1500, 40000), Sub("results", dir_case, check_results, 800, 20000), Sub("all", dir_case, check_all, 800, 20000)]
