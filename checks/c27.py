"""C27: command-line options reach the evaluation unchanged."""
import contextlib
import importlib
import io
import math
import os
import runpy
import sys
import traceback
import warnings

from hypothesis import strategies as st

from checks.c24 import tables_of
from vlib import build
from vlib import metricsref as mr
from vlib import ref
from vlib import worlds as w
from vlib.harness import Sub

RULE = ("every entry point, as function or script, with random options on dataset trees whose files all differ; malformed and out-of-range arguments; "
        "non-trivial: partial matches and at least three options given")
ASSUMPTIONS = ["matching as in C02, NMS as in C05, metrics as in C09", "log files are not examined"]
CMDS = {"bsds": ("pyEdgeEval.helpers.evaluate_bsds500", "evaluate_bsds500", "bsds500.py"),
        "raw": ("pyEdgeEval.helpers.evaluate_cityscapes", "evaluate_cityscapes_raw", "cityscapes_raw.py"),
        "thin": ("pyEdgeEval.helpers.evaluate_cityscapes", "evaluate_cityscapes_thin", "cityscapes_thin.py"),
        "sbd": ("pyEdgeEval.helpers.evaluate_sbd", "evaluate_sbd", "sbd.py"),
        "reanno": ("pyEdgeEval.helpers.evaluate_sbd", "evaluate_reanno_sbd", None)}


def spell_list(draw, vals):
    sep = draw(st.sampled_from([",", ", ", " , "]))
    a, b = draw(st.sampled_from([("[", "]"), ("[ ", " ]"), (" [", "] ")]))
    return a + sep.join(str(v) for v in vals) + b


@st.composite
def cli_case(draw, nprocs=(1,)):
    cmd = draw(st.sampled_from(["bsds", "raw", "raw", "thin", "sbd", "sbd", "reanno"]))
    half = cmd == "thin" or cmd == "raw" and draw(st.booleans())
    if cmd == "bsds":
        c = draw(w.bsds_tree(3))
    else:
        c = draw(w.tree(kinds=["half" if half else {"raw": "cityscapes"}.get(cmd, cmd)], nmax=2))
        c["split"] = "val"
        if cmd in ("raw", "thin"):
            c["pred_suffix"] = None
            c["thin"] = cmd == "thin"
    opts = {}
    on = lambda: draw(st.booleans())  # noqa: E731
    noise = c["noise"]
    if cmd == "reanno":
        dists = [0.02, 0.01, 0.3]
    elif noise:
        dists = [0.004, 0.006] if cmd != "bsds" else [0.004, 0.005]
    else:
        dists = [0.004, 0.0185, 0.03, 0.0257, 0.045, 0.0013]
    if on() or noise and cmd == "sbd":
        opts["--max-dist"] = draw(st.sampled_from(dists))
    if noise and on():
        opts["--apply-nms"] = True
    if cmd == "raw":
        if half:
            opts["--half"] = True
        if on():
            opts["--scale"] = draw(st.sampled_from([0.5, 1.0]))
    if cmd in ("bsds", "sbd", "reanno") and on():
        opts["--raw"] = True
    if cmd in ("sbd", "reanno"):
        c["thin"] = "--raw" not in opts
        if c["pred_suffix"] is not None:
            opts["--pred-suffix"] = c["pred_suffix"]
    if cmd == "bsds":
        if c["split"] == "val":
            opts["--use-val"] = True
    else:
        if on():
            opts["--nonIS"] = True
        if not noise and draw(st.sampled_from([False, False, True])):
            opts["--pre-seal"] = True
        cats = c["cats"]
        if draw(st.sampled_from([True] + [False] * (5 if cmd == "reanno" else 12))):
            c["cats"] = list(range(1, w.NCLASS[c["kind"]] + 1))
            c["names"] = c["names"][:1]
        elif len(cats) == 1 and on():
            opts["--categories"] = draw(st.sampled_from(["%d", " %d", "%d "])) % cats[0]
        else:
            opts["--categories"] = spell_list(draw, cats)
    thr = draw(w.thresholds(3, noise=noise))
    opts["--thresholds"] = draw(st.sampled_from(["%d", " %d ", "0%d"])) % thr if isinstance(thr, int) else spell_list(draw, thr)
    opts["--nproc"] = draw(st.sampled_from(nprocs))
    return {"cmd": cmd, "tree": c, "opts": opts, "thr": thr, "order": draw(st.integers(0, 10**6)), "script": on(), "out": draw(st.sampled_from(["out", "a/b/out", None, "out"])),
            "flat": cmd == "bsds" and on(), "equals": on(), "slash": on()}


def arguments(case, world, out):
    c = case["tree"]
    items = []
    opts = dict(case["opts"])
    if out is not None:
        opts["--output-path"] = out
    for k, v in opts.items():
        items.append([k] if v is True else ["%s=%s" % (k, v)] if case["equals"] or str(v).startswith("-") else [k, str(v)])
    r = w.rng_of(case["order"], "order")
    end = "/" if case["slash"] else ""
    pos = [[world.root + end], [world.pred_root + end]]
    order = [items[i] for i in r.permutation(len(items))]
    at = sorted(int(x) for x in r.integers(0, len(order) + 1, 2))
    order.insert(at[0], pos[0])
    order.insert(at[1] + 1, pos[1])
    return [x for it in order for x in it]


def entry(case):
    mod, name, script = CMDS[case["cmd"]]
    c = case["tree"]
    kw = {}
    if case["flat"]:
        kw["no_split_dir"] = True
    if c.get("gt_dir"):
        kw["gt_dir"] = c["gt_dir"]
    if case["script"] and script and not kw:
        return lambda: runpy.run_path(os.path.join(build.REPO, "scripts", "evaluate", script), run_name="__main__")
    return lambda: getattr(importlib.import_module(mod), name)(**kw)


@contextlib.contextmanager
def command_line(args):
    old = sys.argv
    sys.argv = ["prog"] + args
    err = io.StringIO()
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(err), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield err
    finally:
        sys.argv = old


def protocol_of(case):
    cmd, o = case["cmd"], case["opts"]
    if cmd == "bsds":
        return {"max_dist": o.get("--max-dist", 0.0075), "thinning": "--raw" not in o, "nms": "--apply-nms" in o}
    kw = {"eval_mode": "pre-seal" if "--pre-seal" in o else "post-seal", "instance_sensitive": "--nonIS" not in o, "apply_nms": "--apply-nms" in o}
    if cmd == "raw":
        kw.update(max_dist=o.get("--max-dist", 0.0035), scale=o.get("--scale", 0.5), apply_thinning=False)
    elif cmd == "thin":
        kw.update(max_dist=o.get("--max-dist", 0.0035), apply_thinning=True)
    elif cmd == "sbd":
        kw.update(max_dist=o.get("--max-dist", 0.02), scale=1.0, apply_thinning="--raw" not in o)
    else:
        kw.update(max_dist=0.0075, scale=1.0, apply_thinning="--raw" not in o)
    return w.protocol(case["tree"]["kind"], kw)


def result_files(d):
    return sorted(os.path.relpath(os.path.join(r, f), d) for r, _x, fs in os.walk(d) for f in fs if f.startswith(("eval_bdry", "overall", "results")))


def check(case, t):
    c = case["tree"]
    d = t.tmp()
    bsds = case["cmd"] == "bsds"
    world = (w.BsdsWorld if bsds else w.World)(c, d)
    world.write(decoys=len(c["cats"]) < 10)
    if not bsds:
        world.write_split(c["names"])
        world.write_split(["absent"], split="test")
    prot = protocol_of(case)
    thr = w.thr_values(case["thr"])
    out = None if case["out"] is None else os.path.join(d, case["out"])
    args = arguments(case, world, out)
    fn = entry(case)

    def go():
        with command_line(args):
            t.call(fn)
        return result_dir()

    def result_dir():
        if out is not None:
            return out
        new = sorted(x for x in os.listdir(world.pred_root) if x.startswith("edge_results_"))
        mr.need(len(new) >= 1, lambda: "without an output path nothing was written below the predictions: %r" % sorted(os.listdir(world.pred_root)))
        return os.path.join(world.pred_root, new[-1])

    t.label(case["cmd"])
    if prot is None:  # pre-SEAL has no instance-sensitive protocol on Cityscapes
        with command_line(args):
            t.raises(Exception, fn)
        t.check(not result_files(d), lambda: "results were written: %r" % result_files(d))
        t.label("pre-seal with instance sensitivity rejected")
        return
    if ref.tol_ambiguous(w.max_px(c, dict(prot, scale=prot.get("scale", 1.0)))):
        t.label("ambiguous tolerance")
        return
    if bsds:
        tables = {0: [dict(world.brow(n, case["flat"], prot, case["thr"])) for n in c["names"]]}
    else:
        tables = {cat: world.table(c["names"], cat, prot, thr) for cat in c["cats"]}
    flat = [s for v in tables.values() for s in v]
    if w.ambiguous(flat):
        t.label("ambiguous")
        return

    def judge(o):
        if bsds:
            rows = mr.read_rows(os.path.join(o, "eval_bdry_img.txt"))
            have = {s["name"]: s for s in tables[0]}
            mr.need(sorted(r["name"] for r in rows) == sorted(have), lambda: "sample results are of %r, the samples are %r" % ([r["name"] for r in rows], sorted(have)))
            mr.judge_dir(o, thr, [have[r["name"]] for r in rows])
        else:
            got = []
            for cat in c["cats"]:
                got.append(mr.judge_dir(os.path.join(o, "class_%03d" % cat), thr, tables[cat])[1])
            ov = mr.read_overall(os.path.join(o, "overall_eval_bdry.txt"))
            for k in mr.KEYS:
                want = math.fsum(m[k] for m in got) / len(got)
                mr.need(abs(ov[k] - want) <= 1.1e-6, lambda: "overall %s is %r, the mean over the categories %r" % (k, ov[k], want))
            rows, _ = tables_of(os.path.join(o, "results.txt"))
            mr.need(len(rows) == len(c["cats"]) and all(w.is_class(c["kind"], k, r["Class"]) for k, r in zip(c["cats"], rows)), lambda: "results.txt lists %r for the categories %r" % ([r["Class"] for r in rows], c["cats"]))
            extra = [x for x in os.listdir(o) if x.startswith("class_") and x not in {"class_%03d" % k for k in c["cats"]}]
            mr.need(not extra, lambda: "results of other categories: %r" % extra)

    def judged(o):
        judge(o)

    w.settle(t, go, judged, flat)
    t.nontrivial(any(0 < a < b for s in flat for a, b in zip(s["count_p"], s["sum_p"])) and len(case["opts"]) >= 3)
    for k in case["opts"]:
        t.label(k)
    t.label("default output", out is None)
    t.label("all categories", len(c["cats"]) > 5)
    t.label("script", case["script"] and not case["flat"] and not c.get("gt_dir"))


@st.composite
def bad_case(draw):
    case = draw(cli_case())
    n = w.NCLASS.get(case["tree"]["kind"], 19)
    what = draw(st.sampled_from(["thresholds", "categories", "range"]))
    if case["cmd"] == "bsds":
        what = "thresholds"
    o = case["opts"]
    if what == "thresholds":
        o["--thresholds"] = draw(st.sampled_from(["0.5", "abc", "", "[a]", "[0.1; 0.2]", "(0.1, 0.2)", "1,2", "0.1, 0.2", "[]", "[0.1,]", "[0.1", "0.1]", "{0.1}", "[0.1 0.2]", "99x", "5.0"]))
    elif what == "categories":
        o["--categories"] = draw(st.sampled_from(["1,2", "a", "[1.5]", "[a]", "[]", "", "[1 2]", "(1)", "[1,]", "[1", "1]", "1.0", "car", "1-3"]))
    else:
        v = draw(st.sampled_from([0, -1, n + 1, n + 2, 100]))
        o["--categories"] = draw(st.sampled_from(["%d", "[%d]", "[1, %d]", "[%d, 2]"])) % v
    case["what"] = what
    return case


def check_bad(case, t):
    c = case["tree"]
    d = t.tmp()
    bsds = case["cmd"] == "bsds"
    world = (w.BsdsWorld if bsds else w.World)(c, d)
    world.write(decoys=False)
    if not bsds:
        for cat in range(1, world.n + 1):  # nothing but the arguments is wrong
            if cat not in c["cats"]:
                for name in c["names"]:
                    world.write_pred(name, cat)
        world.write_split(c["names"])
    args = arguments(case, world, None if case["out"] is None else os.path.join(d, case["out"]))
    with command_line(args):
        try:
            entry(case)()
        except (Exception, SystemExit):
            if case["what"] == "range":
                t.label("refused")
        else:
            t.check(case["what"] != "range", lambda: "categories %r were accepted" % case["opts"]["--categories"])
    t.check(not result_files(d), lambda: "results were written for %s: %r" % (args, result_files(d)))
    t.nontrivial()
    t.label(case["what"])


@st.composite
def direct_case(draw):
    case = draw(cli_case())
    o, c = case["opts"], case["tree"]
    if case["cmd"] != "reanno":
        o["--max-dist"] = draw(st.one_of(st.floats(0.0002, 0.15).map(lambda v: round(v, 6)), st.sampled_from([0.0075, 0.02, 0.1, 0.0035])))
    if case["cmd"] == "raw":
        o["--scale"] = draw(st.one_of(st.floats(0.15, 1.0).map(lambda v: round(v, 4)), st.sampled_from([0.25, 0.75, 1.0, 0.3])))
    for k in ("--apply-nms", "--nonIS", "--pre-seal"):
        if k == "--apply-nms" or case["cmd"] not in ("bsds",) and not (k == "--pre-seal" and case["cmd"] == "reanno"):
            o.pop(k, None)
            if draw(st.booleans()):
                o[k] = True
    if "--pre-seal" in o and case["cmd"] in ("raw", "thin"):
        o["--nonIS"] = True
    case["out"] = "out"
    # thresholds no response can reach exactly do not matter here: both sides see the same values
    c["noise"] = draw(st.booleans())
    return case


def direct(case, world, out):
    """The same evaluation through the evaluators."""
    from pyEdgeEval.evaluators import BSDS500Evaluator

    c, o, cmd = case["tree"], case["opts"], case["cmd"]
    thr = case["thr"]
    if cmd == "bsds":
        ev = BSDS500Evaluator(world.root, world.pred_root, split=c["split"])
        ev.set_eval_params(scale=1.0, apply_thinning="--raw" not in o, apply_nms="--apply-nms" in o, max_dist=o["--max-dist"])
        ev.evaluate(thresholds=thr, nproc=1, save_dir=out, no_split_dir=case["flat"])
        return
    kw = {"split": "val", "thin": c["thin"]}
    if c["gt_dir"]:
        kw["gt_dir"] = c["gt_dir"]
    if c["pred_suffix"]:
        kw["pred_suffix"] = c["pred_suffix"]
    ev = w.evaluator_class(c["kind"])(world.root, world.pred_root, **kw)
    ev.set_sample_names(list(c["names"]))
    kw = {"apply_nms": "--apply-nms" in o, "instance_sensitive": "--nonIS" not in o, "apply_thinning": cmd == "thin" or cmd in ("sbd", "reanno") and "--raw" not in o}
    if cmd != "reanno":
        kw.update(max_dist=o["--max-dist"], eval_mode="pre-seal" if "--pre-seal" in o else "post-seal")
    if cmd == "raw":
        kw["scale"] = o["--scale"]
    ev.set_eval_params(**kw)
    ev.evaluate(categories=list(c["cats"]), thresholds=thr, nproc=1, save_dir=out)


def contents(d):
    out = {}
    for f in result_files(d):
        with open(os.path.join(d, f)) as fh:
            out[f] = fh.read()
    return out


def forked(t, f):
    """Call f in a child process, which leaves the state of this one as it is."""
    r, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            try:
                f()
                msg, code = "", 0
            except BaseException as e:
                msg = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-3))
            os.write(wr, msg.encode()[-3000:])
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(r, "rb") as fd:
        msg = fd.read().decode()
    code = os.waitpid(pid, 0)[1]
    t.check(code == 0, lambda: "failed: %s" % (msg or "the process died"))


def alike(a, b):
    """Scores that differ no more than other random matchings of many pixels explain."""
    if a is None or b is None:
        return False
    a, b = a.split(), b.split()
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x != y:
            try:
                if abs(float(x) - float(y)) > 0.02:
                    return False
            except ValueError:
                return False
    return True


def check_direct(case, t):
    """Any option values: the command line and the evaluator with the documented parameters write the same results."""
    c = case["tree"]
    d = t.tmp()
    bsds = case["cmd"] == "bsds"
    world = (w.BsdsWorld if bsds else w.World)(c, d)
    world.write(decoys=False)
    if not bsds:
        world.write_split(c["names"])
        world.write_split(["absent"], split="test")
    out = os.path.join(d, "out")
    seen = [[], []]
    def by_command():
        with command_line(arguments(case, world, out)):
            entry(case)()

    def by_hand():
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            direct(case, world, os.path.join(d, "direct"))

    for i in range(12):
        # the matcher is randomised: both sides start from the same state of its generator
        w.advance(i)
        forked(t, by_command)
        seen[0].append(contents(out))
        forked(t, by_hand)
        seen[1].append(contents(os.path.join(d, "direct")))
        if any(a == b for a in seen[0] for b in seen[1]):
            break
    else:
        diff = sorted(f for f in set(seen[0][0]) | set(seen[1][0]) if all(a.get(f) != b.get(f) for a in seen[0] for b in seen[1]))
        if not diff or all(alike(seen[0][0].get(f), seen[1][0].get(f)) for f in diff):
            t.label("too random to compare")
            return
        t.fail("%s with %r and the evaluator with the same parameters differ in %r: %r / %r" % (case["cmd"], case["opts"], diff[:3], seen[0][0].get(diff[0], "")[-200:], seen[1][0].get(diff[0], "")[-200:]))
    t.nontrivial(any("\n" in v and f.endswith("img.txt") and any(float(x) > 0 for r in v.splitlines() for x in r.split()[3:4]) for f, v in seen[0][0].items()))
    t.label("direct " + case["cmd"])


SUBS = [Sub("options", cli_case, check, 1500, 20000),
        Sub("direct", direct_case, check_direct, 700, 6000),
        Sub("parallel", lambda: cli_case((2, 3, 4)), check, 48, 600),
        Sub("malformed", bad_case, check_bad, 400, 3000)]
