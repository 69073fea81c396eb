"""C21: BSDS500 evaluation covers every sample of the split with its own files."""
import math
import os

import numpy as np
from hypothesis import strategies as st

from pyEdgeEval.datasets.bsds import load_bsds_gt_boundaries
from pyEdgeEval.evaluators import BSDS500Evaluator
from vlib import gens as g
from vlib import metricsref as mr
from vlib import worlds as w
from vlib.harness import Sub

RULE = ("BSDS trees of 1-4 samples with 1-4 annotators and different content in every file, including the other split, the flat prediction "
        "directory and unrelated files; non-trivial: some but not all predicted pixels match at some threshold")
ASSUMPTIONS = ["matching as in C02, metrics as in C09; samples are built so that the union of matched pixels is unambiguous"]


@st.composite
def bsds_case(draw, nprocs=(1,)):
    c = draw(w.bsds_tree(4))
    nms = c["noise"] and draw(st.booleans())
    tol = draw(st.sampled_from([0.4, 1.1, 1.5, 2.3, None])) if not c["noise"] else draw(st.sampled_from([0.4, None]))
    return {"tree": c, "thr": draw(w.thresholds(noise=c["noise"])), "thin": draw(st.sampled_from([True, False, None])), "nms": nms, "tol": tol,
            "flat": draw(st.booleans()), "given": draw(st.sampled_from([None, None, "subset", "reversed"])), "save": draw(st.sampled_from([True, True, False])),
            "nproc": draw(st.sampled_from(nprocs)), "again": draw(st.booleans()), "default_split": draw(st.booleans()), "nested": draw(st.booleans()),
            "stale": draw(st.booleans())}


def check(case, t):
    c = case["tree"]
    d = t.tmp()
    world = w.BsdsWorld(c, d)
    world.write()
    split = c["split"]
    for junk in ("Thumbs.db", "list.txt", "x.png"):
        open(os.path.join(world.root, "groundTruth", split, junk), "w").close()
    # a sample of the split without a prediction must matter only if it is evaluated
    if case["given"] == "subset":
        w.ds.write_bsds_mat(os.path.join(world.root, "groundTruth", split, "unlisted.mat"), world.annots("x", "x"))
    kw = {} if split == "test" and case["default_split"] else {"split": split}
    ev = t.call(BSDS500Evaluator, world.root, world.pred_root, **kw)
    full = ["%s/%s" % (split, n) for n in c["names"]]
    if case["given"] is None:
        t.check(sorted(ev.sample_names) == sorted(full), lambda: "sample names %r, the split holds %r" % (ev.sample_names, full))
        names = ev.sample_names
    else:
        names = full[::-1] if case["given"] == "reversed" else full[:max(1, len(full) - 1)]
        t.call(ev.set_sample_names, list(names))
        t.check(ev.sample_names == names, lambda: "sample names are %r after setting %r" % (ev.sample_names, names))
    copy = ev.sample_names
    copy.reverse()
    copy.append("extra")
    t.check(ev.sample_names == names, lambda: "changing the returned list of sample names changed the evaluator's to %r" % (ev.sample_names,))
    prot = {"nms": case["nms"], "thinning": True if case["thin"] is None else case["thin"], "max_dist": 0.0075 if case["tol"] is None else case["tol"] / math.hypot(c["h"], c["w"])}
    kw = {"apply_nms": case["nms"]}
    if case["thin"] is not None:
        kw["apply_thinning"] = case["thin"]
    if case["tol"] is not None:
        kw["max_dist"] = prot["max_dist"]
    t.call(ev.set_eval_params, **kw)
    thr = w.thr_values(case["thr"])
    tables = [world.brow(n.split("/", 1)[1], case["flat"], prot, case["thr"]) for n in names]
    if w.ambiguous(tables):  # which of several equal responses NMS keeps hangs on how k / 255 rounds
        t.label("NMS hangs on rounding")
        return
    out = os.path.join(d, "out", "deep") if case["nested"] else os.path.join(d, "out")
    if case["stale"] and case["save"]:
        os.makedirs(out)
        for f in ("eval_bdry_img.txt", "eval_bdry_thr.txt", "eval_bdry.txt"):
            open(os.path.join(out, f), "w").write("stale " * 50 + "\n" + "1 2 3 4\n" * 300)

    def go():
        return t.call(ev.evaluate, thresholds=case["thr"], nproc=case["nproc"], save_dir=out if case["save"] else None, **({"no_split_dir": True} if case["flat"] else {}))

    def judge(ov):
        if case["save"]:
            picked, _ = mr.judge_dir(out, thr, tables)
        else:
            mr.need(not os.path.exists(out), "results were saved without a save directory")
            picked = None
        mr.judge_overall(thr, tables, picked, ov)

    w.settle(t, go, judge, tables)
    if case["again"]:
        w.settle(t, go, judge, tables)
    t.nontrivial(any(0 < a < b for s in tables for a, b in zip(s["count_p"], s["sum_p"])))
    t.label("several samples", len(names) > 1)
    t.label("several annotators", any(len(world.annots("groundTruth/%s.mat" % n, n.split("/", 1)[1])) > 1 for n in names))
    t.label("flat predictions", case["flat"])
    t.label("nms", case["nms"])
    t.label("default tolerance", case["tol"] is None)


@st.composite
def reject_case(draw):
    return {"tree": draw(w.bsds_tree(3)), "what": draw(st.sampled_from(["gt", "pred", "split", "empty", "nolist", "scale", "wrongdir", "nogt"])), "flat": draw(st.booleans()),
            "bad": draw(st.integers(0, 2)), "scale": draw(st.sampled_from([0, -1, 1.01, 2, -0.25])), "split": draw(st.sampled_from(["train", "", "Test", "tests", None]))}


def check_reject(case, t):
    c = case["tree"]
    d = t.tmp()
    world = w.BsdsWorld(c, d)
    world.write(decoys=False)
    what = case["what"]
    bad = c["names"][case["bad"] % len(c["names"])]
    out = os.path.join(d, "out")
    if what == "split":
        t.raises(Exception, BSDS500Evaluator, world.root, world.pred_root, case["split"])
    elif what == "scale":
        ev = BSDS500Evaluator(world.root, world.pred_root, c["split"])
        t.raises(Exception, ev.set_eval_params, scale=case["scale"])
    elif what in ("empty", "nolist"):
        ev = BSDS500Evaluator(world.root, world.pred_root, c["split"])
        t.raises(Exception, ev.set_sample_names, [] if what == "empty" else tuple(c["names"]))
    else:
        ev = BSDS500Evaluator(world.root, world.pred_root, c["split"])
        ev.set_eval_params()
        ev.set_sample_names(["%s/%s" % (c["split"], n) for n in c["names"]])
        if what in ("gt", "nogt"):
            os.remove(os.path.join(world.root, "groundTruth", c["split"], bad + ".mat"))
        elif what == "wrongdir":
            ev.pred_root = os.path.join(d, "none")
        else:
            os.remove(os.path.join(world.pred_root, "" if case["flat"] else c["split"], bad + ".png"))
        t.raises(Exception, ev.evaluate, [0.5], 1, out, no_split_dir=case["flat"])
        t.check(not os.path.exists(os.path.join(out, "eval_bdry.txt")), "results were written although a file is missing")
    t.nontrivial()
    t.label(what)


@st.composite
def load_case(draw):
    h, w = draw(g.dims(2, 14))
    return {"gts": [draw(g.bitmap(h, w)) for _ in range(draw(st.integers(1, 7)))]}


def check_load(case, t):
    """Both loaders of the annotations return what was stored, in its order."""
    p = os.path.join(t.tmp(), "a.mat")
    w.ds.write_bsds_mat(p, case["gts"])
    for new in (False, True):
        r = t.call(load_bsds_gt_boundaries, p, new)
        t.check(len(r) == len(case["gts"]), lambda: "new_loader=%r: %d annotations, stored %d" % (new, len(r), len(case["gts"])))
        for i, (x, y) in enumerate(zip(r, case["gts"])):
            t.eq_array(x, y.astype(np.uint8), "new_loader=%r: annotation %d" % (new, i), dtype=np.uint8)
    t.nontrivial(len(case["gts"]) > 1 and any(y.any() for y in case["gts"]))
    t.label("one annotation", len(case["gts"]) == 1)


SUBS = [Sub("evaluate", bsds_case, check, 1200, 20000),
        Sub("parallel", lambda: bsds_case((2, 3, 5)), check, 60, 800),
        Sub("replaced", lambda: g.replaced(bsds_case), g.check_replaced(check), 150, 2000),
        Sub("replaced mats", lambda: g.replaced(load_case), g.check_replaced(check_load), 150, 2000),
        Sub("loaders", load_case, check_load, 1500, 20000),
        Sub("rejected", reject_case, check_reject, 300, 2000)]
