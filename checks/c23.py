"""C23: multi-label evaluators evaluate every sample and category with its own files."""
import os

from hypothesis import strategies as st

from checks.c22 import make
from vlib import gens as g
from vlib import metricsref as mr
from vlib import ref
from vlib import worlds as w
from vlib.harness import Sub

RULE = ("every evaluator on trees of 1-4 samples and 1-3 categories whose files all differ (both thicknesses, both kinds of edges, another split or ground-truth "
        "directory, other categories and suffixes present); non-trivial: at least two samples and partial matches")
ASSUMPTIONS = ["matching as in C02, NMS as in C05, metrics as in C09"]


@st.composite
def eval_case(draw, nprocs=(1,)):
    c = draw(w.tree(nmax=4))
    return {"tree": c, "kw": draw(w.eval_kwargs(noise=c["noise"])), "thr": draw(w.thresholds(3, noise=c["noise"])), "source": draw(st.sampled_from(["default", "default", "list", "file", "both"])),
            "perm": draw(st.permutations(range(len(c["names"])))), "save": draw(st.sampled_from([True, True, False])), "nproc": draw(st.sampled_from(nprocs)), "newline": draw(st.booleans()),
            "again": draw(st.booleans())}


def check(case, t):
    c = case["tree"]
    d = t.tmp()
    world = w.World(c, d)
    world.write()
    names = [c["names"][i] for i in case["perm"]]
    src = case["source"]
    other = ["not/there"] if world.city else ["notthere"]
    world.write_split(names if src == "default" else other, newline=case["newline"])
    world.write_split(other, split="test" if c["split"] == "val" else "val")
    custom = os.path.join(d, "custom.txt")
    world.write_split(names if src == "file" else other, path=custom, newline=case["newline"])
    ev = make(t, world)
    if src == "list":
        t.call(ev.set_sample_names, list(names))
    elif src == "file":
        t.call(ev.set_sample_names, split_file=custom)
    elif src == "both":
        t.call(ev.set_sample_names, list(names), custom)
    t.check(ev.sample_names == names, lambda: "sample names (%s) are %r, expected %r" % (src, ev.sample_names, names))
    copy = ev.sample_names  # what a caller does with the list he was given does not reach the evaluator
    copy.reverse()
    copy.append("extra")
    t.check(ev.sample_names == names, lambda: "changing the returned list of sample names changed the evaluator's to %r" % (ev.sample_names,))
    prot = w.protocol(c["kind"], case["kw"])
    if prot is None:
        case = dict(case, kw=dict(case["kw"], instance_sensitive=False))
        prot = w.protocol(c["kind"], case["kw"])
    if ref.tol_ambiguous(w.max_px(c, prot)):
        t.label("ambiguous tolerance")
        return
    t.call(ev.set_eval_params, **case["kw"])
    thr = w.thr_values(case["thr"])
    out = os.path.join(d, "out")
    partial = False
    for cat in c["cats"] + (c["cats"][:1] if case["again"] else []):
        tables = world.table(names, cat, prot, thr)
        if w.ambiguous(tables):
            t.label("ambiguous")
            continue
        partial |= any(0 < a < b for s in tables for a, b in zip(s["count_p"], s["sum_p"]))

        def judge(ov):
            picked = None
            if case["save"]:
                picked, _ = mr.judge_dir(os.path.join(out, "class_%03d" % cat), thr, tables)
            else:
                mr.need(not os.path.exists(out), "results were saved without a save directory")
            mr.judge_overall(thr, tables, picked, ov)

        w.settle(t, lambda: t.call(ev.evaluate_category, category=cat, thresholds=case["thr"], nproc=case["nproc"], save_dir=out if case["save"] else None), judge, tables)
        t.label("no ground truth in a sample", any(max(s["sum_r"]) == 0 for s in tables))
    if case["save"] and os.path.isdir(out):
        t.check(set(os.listdir(out)) <= {"class_%03d" % k for k in c["cats"]}, lambda: "the output holds %r" % sorted(os.listdir(out)))
    t.nontrivial(len(names) > 1 and partial)
    t.label(c["kind"])
    t.label("sample names from " + src)
    t.label("nms", prot["nms"])
    t.label("thin", c["thin"])
    t.label("several categories", len(c["cats"]) > 1)


@st.composite
def reject_case(draw):
    return {"tree": draw(w.tree(nmax=3)), "what": draw(st.sampled_from(["gt", "seg", "category", "nonames", "empty", "nolist", "split", "nosplitfile", "nopredroot"])), "bad": draw(st.integers(0, 3)),
            "is": draw(st.booleans()), "cat": draw(st.sampled_from([0, -1, 20, 21, 22, 100])), "split": draw(st.sampled_from(["train", "", "Val"]))}


def check_reject(case, t):
    c = case["tree"]
    d = t.tmp()
    world = w.World(c, d)
    world.write(decoys=False)
    out = os.path.join(d, "out")
    what = case["what"]
    cat = c["cats"][0]
    if what == "split":
        t.raises(Exception, w.evaluator_class(c["kind"]), world.root, world.pred_root, case["split"])
    else:
        if what == "nonames":
            ev = make(t, world)
            ev.set_eval_params()
            t.raises(Exception, ev.evaluate_category, cat, [0.5], 1, out)
        else:
            world.write_split(c["names"])
            ev = make(t, world)
            ev.set_eval_params(instance_sensitive=case["is"])
            if what in ("empty", "nolist"):
                t.raises(Exception, ev.set_sample_names, [] if what == "empty" else tuple(c["names"]))
            elif what == "nosplitfile":
                t.raises(Exception, ev.set_sample_names, None, os.path.join(d, "absent.txt"))
            else:
                bad = c["names"][case["bad"] % len(c["names"])]
                p = world.gt_paths(bad)
                if what == "category":
                    cat = case["cat"] if not (c["kind"] in ("sbd", "reanno") and case["cat"] == 20) else 21
                elif what == "nopredroot":
                    ev.pred_root = os.path.join(d, "absent")
                elif c["kind"] == "otf":
                    os.remove(os.path.join(world.root, p["lab"] if what == "seg" or not case["is"] else p["inst"]))
                else:
                    os.remove(os.path.join(world.root, p["seg"] if what == "seg" else p[(c["thin"], case["is"])]))
                t.raises(Exception, ev.evaluate_category, cat, [0.5], 1, out)
        for root, _dirs, files in os.walk(out):
            t.check("eval_bdry.txt" not in files, "results were written although the evaluation was rejected")
    t.nontrivial()
    t.label(what)


SUBS = [Sub("evaluate", eval_case, check, 1600, 20000),
        Sub("replaced", lambda: g.replaced(eval_case), g.check_replaced(check), 150, 2000),
        Sub("parallel", lambda: eval_case((2, 3, 5)), check, 60, 800),
        Sub("rejected", reject_case, check_reject, 300, 2000)]
