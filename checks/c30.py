"""C30: converting a dataset and evaluating on it gives the scores of the annotation itself."""
import contextlib
import io
import math
import os
import runpy
import sys
import warnings

import numpy as np
from hypothesis import strategies as st

from checks import c17, c18
from vlib import build
from vlib import datasets as ds
from vlib import evalref
from vlib import gens as g
from vlib import metricsref as mr
from vlib import ref
from vlib import worlds as w
from vlib.harness import Sub

RULE = ("small Cityscapes, SBD and re-annotated SBD source trees, converted with the repository's converter and evaluated with the repository's evaluators on "
        "generated predictions at tolerances below one pixel; non-trivial: some but not all edge pixels of a sample and category are expected to match")
ASSUMPTIONS = ["tolerances stay below one pixel, where the matching is the intersection", "thinning as in C03, metrics as in C09, conversions as in C17 and C18"]


def preds(seed, name, cat, base, shape):
    """A prediction that hits part of the base edges and some other pixels."""
    r = w.rng_of(seed, name, cat)
    k = r.integers(0, 6)
    v = w.untied(r.integers(1, 254, shape))
    if base is None or base.shape != shape:
        hit = r.random(shape) < 0.3
    elif k == 0:
        hit = base
    elif k == 1:
        hit = np.zeros(shape, bool)
    else:
        hit = (base & (r.random(shape) < 0.75)) | (r.random(shape) < 0.1)
    return np.where(hit, v, 0).astype(np.uint8)


@st.composite
def city_case(draw):
    c = draw(c18.tree_case())
    c.update(ext="png", script=False, relative=False, junk=False, half=True, raw_val_radius=2)
    c["tree"]["train"] = []
    c["tree"]["test"] = []
    return {"tree": c, "mode": draw(st.sampled_from(["full", "full", "half", "otf"])), "thin": draw(st.booleans()), "scale": draw(st.sampled_from([1.0, 1.0, 1, 0.5])),
            "protocol": draw(st.sampled_from(["post-seal", "pre-seal", None])), "thinning": draw(st.booleans()), "px": draw(st.sampled_from([0.05, 0.4, 0.9])),
            "thr": draw(w.thresholds(3)), "seed": draw(st.integers(0, 10**6)), "extra": draw(st.integers(1, 19)), "nproc": draw(st.sampled_from([1, 1, 1, 2])),
            "again": draw(st.booleans())}


def quiet():
    stack = contextlib.ExitStack()
    stack.enter_context(contextlib.redirect_stdout(io.StringIO()))
    stack.enter_context(contextlib.redirect_stderr(io.StringIO()))
    stack.enter_context(warnings.catch_warnings())
    warnings.simplefilter("ignore")
    return stack


def run_and_judge(t, ev, kw, cats, thr, nproc, out, tables):
    thrv = w.thr_values(thr)
    flat = [s for v in tables.values() for s in v]
    if w.ambiguous(flat):
        t.label("ambiguous")
        return

    def go():
        with quiet():
            t.call(ev.evaluate, categories=cats, thresholds=thr, nproc=nproc, save_dir=out)

    def judge(_):
        for c in cats:
            mr.judge_dir(os.path.join(out, "class_%03d" % c), thrv, tables[c])

    w.settle(t, go, judge, flat)
    t.nontrivial(any(0 < a < max(b, c) for s in flat for a, b, c in zip(s["count_p"], s["sum_p"], s["sum_r"])))


def check_city(case, t):
    from pyEdgeEval.helpers.convert_cityscapes import convert_cityscapes

    tree = case["tree"]
    d = t.tmp()
    root = os.path.join(d, tree["root"])
    pred_root = os.path.join(d, "preds")
    c18.write_tree(tree, root)
    with quiet():
        for _ in range(2 if case["again"] else 1):
            t.call(convert_cityscapes, tree["proc"], cityscapes_root=root, inst_sensitive=tree["is"], raw_val_radius=2, nproc=1)
    want = c18.expected_tree(tree)
    mode, thin = case["mode"], case["thin"]
    kind = {"full": "cityscapes"}.get(mode, mode)
    kw = {"max_dist": 0.0, "instance_sensitive": tree["is"], "apply_thinning": case["thinning"]}
    if case["protocol"] is not None:
        kw["eval_mode"] = case["protocol"]
    if mode != "half":
        kw["scale"] = 1 if mode == "otf" else case["scale"]
    sizes = [ds.target_size(x["lab"].shape, 0.5 if mode == "half" else kw["scale"]) for _, _, x in tree["tree"]["val"]]
    diag = max(math.hypot(*s) for s in sizes)
    kw["max_dist"] = case["px"] / diag
    prot = w.protocol(kind, kw)
    if prot is None:
        t.label("rejected protocol")
        return
    if prot["max_dist"] * diag >= 0.99:
        t.label("tolerance beyond a pixel")
        return
    stem = "_gtProc_%s%s_%s.png" % ("half_" if mode == "half" else "", "thin" if thin else "raw", "isedge" if tree["is"] else "edge")
    cats = {case["extra"]}
    for city, name, x in tree["tree"]["val"]:
        plane = want[os.path.join("val", city, name) + stem]
        if plane.any() and w.rng_of(case["seed"], "k").random() < 0.8:
            cats |= {int(k) + 1 for k in np.flatnonzero(plane.any((1, 2)))}
            continue
        cats |= {ds.TRAIN[int(v)] + 1 for v in np.unique(x["lab"]) if int(v) in ds.TRAIN}
    cats = sorted(cats, key=lambda c: w.rng_of(case["seed"], c).random())[:3]
    tables = {}
    for c in cats:
        tables[c] = []
        for (city, name, x), (h, wd) in zip(tree["tree"]["val"], sizes):
            base = os.path.join("val", city, name)
            if mode == "otf":
                # the class edges before they are thinned
                e = c18.label_edges(x["lab"], x["inst"].astype(np.int64) if tree["is"] else None, 1 if thin else 2, False)[c - 1]
                seg = x["lab"] == ds.LABEL[c - 1]
                gt = e
            else:
                e = want[base + stem][c - 1]
                gt = ref.resize_nearest(e, wd, h)
                seg = ref.resize_nearest(want[base + "_gtFine_labelTrainIds.png"], wd, h) == c - 1
            shape = (h, wd) if w.rng_of(case["seed"], name).random() < 0.5 else x["lab"].shape
            p = preds(case["seed"], city + name, c, gt if shape == gt.shape else e, shape)
            ds.write_img(os.path.join(pred_root, "class_%03d" % c, city, name + "_leftImg8bit.png"), p)
            p = ref.resize_nearest(p, wd, h) / 255.0
            rows = evalref.expected(w.thr_values(case["thr"]), p, gt, prot["max_dist"], prot["thinning"], None, prot["skip"], seg if prot["kill"] else None)
            tables[c].append(w.table_of(city + "/" + name, rows))
    with quiet():
        ev = t.call(w.evaluator_class(kind), root, pred_root, thin=thin, gt_dir=tree["proc"])
        t.check(sorted(ev.sample_names or []) == sorted(c + "/" + n for c, n, _ in tree["tree"]["val"]), lambda: "the evaluator found the samples %r" % ev.sample_names)
        t.call(ev.set_eval_params, **kw)
    order = list(ev.sample_names)
    for c in cats:
        tables[c].sort(key=lambda s: order.index(s["name"]))
    run_and_judge(t, ev, kw, cats, case["thr"], case["nproc"], os.path.join(d, "out"), tables)
    t.label(mode)
    t.label("thin" if thin else "raw")
    t.label("instance-sensitive", tree["is"])
    t.label("kill internal", bool(prot["kill"]))


@st.composite
def sbd_case(draw):
    n = draw(st.integers(1, 3))
    re = draw(st.booleans())
    return {"samples": [draw(c17.sample(18, 32)) for _ in range(n)], "reanno": [[draw(c17.reanno_case(12, 24)) for _ in range(2)] for _ in range(2)] if re else None,
            "thin": draw(st.booleans()), "is": draw(st.booleans()), "protocol": draw(st.sampled_from(["post-seal", "pre-seal", None])), "thinning": draw(st.booleans()),
            "px": draw(st.sampled_from([0.05, 0.4, 0.9])), "thr": draw(w.thresholds(3)), "seed": draw(st.integers(0, 10**6)), "extra": draw(st.integers(1, 20)),
            "scale": draw(st.sampled_from([1.0, 1.0, 0.5])), "out": draw(st.sampled_from([None, "gtE"]))}


def check_sbd(case, t):
    d = t.tmp()
    pred_root = os.path.join(d, "preds")
    names = ["2008_%06d" % i for i in range(len(case["samples"]))]
    for s, n in zip(case["samples"], names):
        c17.put(s, d, n)
    c17.put(case["samples"][0], d, "2007_000001")
    for split, ns in (("train", ["2007_000001"]), ("val", names)):
        with open(os.path.join(d, split + ".txt"), "w") as f:
            f.write("".join(n + "\n" for n in ns))
    argv = ["sbd.py", "--root", d, "--nproc", "1"] + (["-o", case["out"]] if case["out"] else [])
    if case["reanno"]:
        from scipy.io import savemat

        argv.append("--reanno")
        for mode, ss in zip(("raw", "thin"), case["reanno"]):
            r = os.path.join(d, "gt_reanno_" + mode)
            lst = np.empty((2, 1), object)
            for i, s in enumerate(ss):
                c17.put_reanno(s, r, "r%d" % i)
                lst[i, 0] = np.array(["r%d" % i])
            savemat(os.path.join(r, "test.mat"), {"listTest": lst})
    old = sys.argv
    sys.argv = argv
    try:
        with quiet():
            t.call(runpy.run_path, os.path.join(build.REPO, "scripts", "convert_datasets", "sbd.py"), run_name="__main__")
    finally:
        sys.argv = old
    kw = {"instance_sensitive": case["is"], "apply_thinning": case["thinning"], "scale": case["scale"]}
    if case["protocol"] is not None:
        kw["eval_mode"] = case["protocol"]
    kind = "reanno" if case["reanno"] else "sbd"
    sens = w.protocol(kind, kw)["is"]
    gt_dir = case["out"] or "gtEval"
    samples = []
    if case["reanno"]:
        for i, s in enumerate(case["reanno"][1 if case["thin"] else 0]):
            e = s["bdry"].astype(bool)
            if sens:
                for c in s["present"]:
                    e[c - 1] |= s["ibdry"][c - 1].astype(bool)
            h, wd = e.shape[1:]
            # the release has segmentations of these samples from the original annotation
            ds.write_img(os.path.join(d, gt_dir, "r%d_labelIds.png" % i), np.zeros((h, wd), np.uint8))
            samples.append(("r%d" % i, e, np.zeros((h, wd), int)))
    else:
        for s, n in zip(case["samples"], names):
            samples.append((n, c17.planes(s, 1 if case["thin"] else 2, case["thin"], sens), c17.bordered(s["seg"]).astype(int)))
    sizes = [ds.target_size(e.shape[1:], case["scale"]) for _, e, _ in samples]
    diag = max(math.hypot(*s) for s in sizes)
    kw["max_dist"] = case["px"] / diag
    prot = w.protocol(kind, kw)
    if prot is None or prot["max_dist"] * diag >= 0.99:
        t.label("tolerance beyond a pixel")
        return
    cats = {case["extra"]}
    for _, e, _ in samples:
        cats |= {int(k) + 1 for k in np.flatnonzero(e.any((1, 2)))}
    cats = sorted(cats, key=lambda c: w.rng_of(case["seed"], c).random())[:3]
    tables = {}
    for c in cats:
        tables[c] = []
        for (name, planes, seg), (h, wd) in zip(samples, sizes):
            e = planes[c - 1].astype(bool)
            gt = ref.resize_nearest(e, wd, h)
            p = preds(case["seed"], name, c, e, e.shape)
            ds.write_img(os.path.join(pred_root, "class_%03d" % c, name + ".png"), p)
            p = ref.resize_nearest(p, wd, h) / 255.0
            inner = np.zeros((h, wd), bool)
            inner[5:max(5, h - 5), 5:max(5, wd - 5)] = True
            rows = evalref.expected(w.thr_values(case["thr"]), p * inner, gt, prot["max_dist"], prot["thinning"], None, prot["skip"],
                                    ref.resize_nearest(seg, wd, h) == c if prot["kill"] else None)
            tables[c].append(w.table_of(name, rows))
    with quiet():
        args = {"gt_dir": case["out"]} if case["out"] else {}
        ev = t.call(w.evaluator_class(kind), d, pred_root, thin=case["thin"], **args)
        if kind == "reanno":
            t.call(ev.set_sample_names, split_file=os.path.join(d, "reanno_val.txt"))
        t.check(ev.sample_names == [n for n, _, _ in samples], lambda: "the evaluator found the samples %r" % ev.sample_names)
        t.call(ev.set_eval_params, **kw)
    run_and_judge(t, ev, kw, cats, case["thr"], 1, os.path.join(d, "result"), tables)
    t.label(kind)
    t.label("thin" if case["thin"] else "raw")
    t.label("instance-sensitive", sens)
    t.label("kill internal", bool(prot["kill"]))


SUBS = [Sub("replaced cityscapes", lambda: g.replaced(city_case), g.check_replaced(check_city), 60, 800),
        Sub("replaced sbd", lambda: g.replaced(sbd_case), g.check_replaced(check_sbd), 60, 800),
        Sub("cityscapes", city_case, check_city, 600, 15000), Sub("sbd", sbd_case, check_sbd, 500, 10000)]
