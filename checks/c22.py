"""C22: evaluation protocols set exactly the documented parameters."""
import os
import warnings

from hypothesis import strategies as st

from vlib import metricsref as mr
from vlib import ref
from vlib import worlds as w
from vlib.harness import Sub

RULE = ("every evaluator on trees of 1-2 samples whose files all differ, 1-5 steps setting parameters (with defaults, rejected values and repeated settings), "
        "prediction suffixes or evaluating; non-trivial: an evaluation has partial matches and some ground-truth, tolerance or mask choice would change its counts")
ASSUMPTIONS = ["matching as in C02, NMS as in C05, metrics as in C09"]


@st.composite
def protocol_case(draw):
    c = draw(w.tree(nmax=2))
    steps = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.sampled_from(["set", "set", "set", "eval", "suffix"]))
        if k == "set":
            steps.append(["set", draw(w.eval_kwargs(noise=c["noise"], bad=draw(st.sampled_from([False, False, True]))))])
        elif k == "suffix" and w.is_city(c["kind"]):
            steps.append(["suffix", draw(st.sampled_from(w.SUFFIXES))])
        else:
            steps.append(["eval"])
    return {"tree": c, "steps": steps, "last": draw(w.eval_kwargs(noise=c["noise"])), "thr": draw(w.thresholds(3, noise=c["noise"])), "positional": draw(st.booleans())}


def make(t, world):
    c = world.case
    kw = {"split": c["split"], "thin": c["thin"]}
    if c["gt_dir"] is not None:
        kw["gt_dir"] = c["gt_dir"]
    if c["pred_suffix"] is not None:
        kw["pred_suffix"] = c["pred_suffix"]
    return t.call(w.evaluator_class(c["kind"]), world.root, world.pred_root, **kw)


def check(case, t):
    c = case["tree"]
    kind = c["kind"]
    d = t.tmp()
    world = w.World(c, d)
    world.write()
    ev = make(t, world)
    t.call(ev.set_sample_names, list(c["names"]))
    thr = w.thr_values(case["thr"])
    prot = None
    suffix = None
    nsets = 0
    for step in case["steps"] + [["set", case["last"]], ["eval"]]:
        if step[0] == "suffix":
            suffix = step[1]
            t.call(ev.set_pred_suffix, suffix)
        elif step[0] == "set":
            kw = dict(step[1])
            want = w.protocol(kind, kw)
            with warnings.catch_warnings(record=True) as seen:
                warnings.simplefilter("always")
                if want is None:
                    t.raises(Exception, ev.set_eval_params, **kw)
                    prot = None
                    t.label("rejected")
                    continue
                if case["positional"] and "eval_mode" in kw:
                    t.call(ev.set_eval_params, kw.pop("eval_mode"), **kw)
                else:
                    t.call(ev.set_eval_params, **kw)
            kw = step[1]
            if kind == "sbd" and kw.get("eval_mode") == "pre-seal" and kw.get("instance_sensitive", True):
                t.check(len(seen) > 0, "pre-seal with instance sensitivity gives no warning")
                t.label("sbd pre-seal without instance sensitivity")
            prot = want
            nsets += 1
            t.label("mode %s" % kw.get("eval_mode"))
            got = ev.eval_params
            for key, name in (("scale", "scale"), ("apply_thinning", "thinning"), ("apply_nms", "nms"), ("max_dist", "max_dist"), ("kill_internal", "kill"), ("skip_if_nonexistent", "skip")):
                t.check(got[key] == prot[name], lambda: "%s: %s is %r after set_eval_params(%s), expected %r" % (kind, key, got[key], kw, prot[name]))
        elif prot is not None:
            if ref.tol_ambiguous(w.max_px(c, prot)):
                t.label("ambiguous tolerance")
                continue
            cat = c["cats"][0]
            tables = world.table(c["names"], cat, prot, thr, suffix=suffix)
            if w.ambiguous(tables):
                t.label("ambiguous")
                continue

            def judge(ov):
                mr.judge_overall(thr, tables, None, ov)
                mr.judge_dir(os.path.join(d, "out", "class_%03d" % cat), thr, tables)

            w.settle(t, lambda: t.call(ev.evaluate_category, category=cat, thresholds=case["thr"], nproc=1, save_dir=os.path.join(d, "out")), judge, tables)
            counts = [(s["count_p"], s["sum_p"], s["sum_r"]) for s in tables]
            if any(0 < a < b for s in tables for a, b in zip(s["count_p"], s["sum_p"])):
                for name, alt in (("is", not prot["is"]), ("kill", not prot["kill"]), ("max_dist", 0.02 if prot["max_dist"] != 0.02 else 0.004), ("skip", not prot["skip"])):
                    other = [(s["count_p"], s["sum_p"], s["sum_r"]) for s in world.table(c["names"], cat, dict(prot, **{name: alt}), thr, suffix=suffix)]
                    if other != counts:
                        t.nontrivial()
                        t.label("%s matters" % name)
    t.label(kind)
    t.label("set repeatedly", nsets > 1)


SUBS = [Sub("protocol", protocol_case, check, 2400, 30000)]
