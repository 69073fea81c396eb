"""C37: whole evaluations of ordinary images score whole contours exactly."""
import os

from hypothesis import strategies as st

from checks.c22 import make
from vlib import gens as g
from vlib import contours as ct
from vlib import metricsref as mr
from vlib import ref
from vlib import worlds as w
from vlib.harness import Sub

RULE = ("trees of 1-3 samples of 90x90 to 1024x512 whose contours are lines, curves, outlines, discs, crosses and combs, predicted moved by up to four pixels "
        "within the tolerance, at 18-254 levels of strength, missing or spurious; non-trivial: more than 300 ground-truth pixels in a sample, and some but not all of them found at some threshold "
        "(or all of them, in the perfect trees)")
ASSUMPTIONS = ["matching as in C02 (a shape that has a partner for every pixel matches as a whole), metrics as in C09"]
SIZES = [(90, 120), (120, 90), (160, 240), (240, 161), (321, 481), (481, 321), (200, 300), (100, 700)]


@st.composite
def size(draw, kind):
    h, wd = draw(st.sampled_from(SIZES + [(375, 500)]))
    if kind == "otf":
        h, wd = min(h, 200), min(wd, 260)
    if draw(st.integers(0, 30)) == 30 and kind in ("cityscapes", "half"):
        h, wd = 512, 1024
    return h + draw(st.integers(0, 3)), wd + draw(st.integers(0, 3))


@st.composite
def base(draw, kind, names):
    h, wd = draw(size(kind))
    return {"kind": kind, "names": names, "seed": draw(st.integers(0, 10**6)), "h": h, "w": wd, "box": draw(st.sampled_from([10, 16, 24, 40, 60])),
            "perfect": draw(st.integers(0, 5)) == 5, "border": draw(st.booleans()), "halo": False, "noise": False}


@st.composite
def tree_case(draw, nprocs=(1,)):
    kind = draw(st.sampled_from(w.KINDS))
    pool = w.CITY_NAMES if w.is_city(kind) else w.SBD_NAMES
    names = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=3, unique=True))
    c = draw(base(kind, names))
    n = w.NCLASS[kind]
    cats = draw(st.lists(st.sampled_from([12, 14, 1, 3, 13, 19, 2]) if kind == "otf" else st.integers(1, n), min_size=1, max_size=2, unique=True))
    up = kind != "half" and draw(st.booleans())
    c.update(cats=cats, up=up, predup=draw(st.booleans()), split=draw(st.sampled_from(["val", "test"])), thin=draw(st.booleans()), gt_dir=None, pred_suffix=None)
    kw = {"eval_mode": draw(st.sampled_from(["post-seal", "post-seal", "pre-seal", None])), "scale": 0.5 if up else 1.0, "apply_thinning": kind != "otf" and draw(st.booleans()),
          "instance_sensitive": draw(st.booleans())}
    if draw(st.integers(0, 2)):
        kw["max_dist"] = draw(st.sampled_from([0.0035, 0.0075, 0.0151, 0.0021, 0.0307]))
    prot = w.protocol(kind, kw)
    # with a tolerance below two pixels the few matches a call may miss are too many here
    c["halo"] = prot is not None and prot["max_dist"] * (c["h"] ** 2 + c["w"] ** 2) ** 0.5 > 2 and draw(st.booleans())
    return {"tree": c, "kw": kw, "thr": draw(w.thresholds(4)), "nproc": draw(st.sampled_from(nprocs)), "all": draw(st.booleans())}


def rows_table(world, names, cat, prot, thr):
    """Counts, and whether every matchable pixel has a partner of its own."""
    out = []
    for n in names:
        rows = world.rows(n, cat, prot, thr)
        s = w.table_of(n, rows)
        s["amb"] = any(r.amb or r.hi != r.matchable and not world.case["halo"] for r in rows)
        s["lo_r"] = s["lo_p"] = [ct.least(r.hi, r.matchable) for r in rows]
        out.append(s)
    return out


def recover(what, x, total, lo, hi):
    """The count behind a stored ratio."""
    if not total:
        mr.need(x == 0, lambda: "%s is %r, nothing is there to find" % (what, x))
        return 0
    k = round(x * total)
    mr.need(abs(k / total - x) <= 0.51e-6, lambda: "%s is %r, which is no number of %d pixels" % (what, x, total))
    mr.need(lo <= k <= hi, lambda: "%s is %r: %d of %d pixels, expected %d to %d" % (what, x, k, total, lo, hi))
    return k


def judge(d, thr, tables, single):
    """The stored results: totals exact, matches up to the few a call may miss, every score from the counts it was computed from. Returns the overall results."""
    for f in ("eval_bdry_img.txt", "eval_bdry_thr.txt", "eval_bdry.txt"):
        mr.need(os.path.isfile(os.path.join(d, f)), lambda: "%s was not written to %s" % (f, d))
    tres = mr.read_thr(os.path.join(d, "eval_bdry_thr.txt"))
    mr.need(len(tres) == len(thr), lambda: "%d threshold results for %d thresholds" % (len(tres), len(thr)))
    curve, counts = [], []
    add = lambda key, i: sum(s[key][i] for s in tables)  # noqa: E731
    for i, row in enumerate(tres):
        mr.need(mr.close(row["threshold"], thr[i], 1.1e-6), lambda: "threshold %d is %r, expected %r" % (i, row["threshold"], thr[i]))
        cr = recover("recall at threshold %g" % thr[i], row["recall"], add("sum_r", i), add("lo_r", i), add("count_r", i))
        cp = recover("precision at threshold %g" % thr[i], row["precision"], add("sum_p", i), add("lo_p", i), add("count_p", i))
        if single:
            mr.need(cr == cp or not add("sum_r", i) or not add("sum_p", i), lambda: "threshold %g: recall counts %d matches, precision %d" % (thr[i], cr, cp))
        curve.append(mr.prf(cr, add("sum_r", i), cp, add("sum_p", i)))
        counts.append((cr, cp))
        mr.need(mr.close(row["f1"], curve[-1][2], 1.1e-6), lambda: "threshold %g: F1 is %r for recall and precision %r" % (thr[i], row["f1"], curve[-1][:2]))
    sres = mr.read_rows(os.path.join(d, "eval_bdry_img.txt"))
    mr.need([r["name"] for r in sres] == [s["name"] for s in tables], lambda: "sample results are of %r" % [r["name"] for r in sres])
    ois = [0, 0, 0, 0]
    for s, row in zip(tables, sres):
        idx = [i for i in range(len(thr)) if mr.close(thr[i], row["threshold"], 1.1e-6)]
        mr.need(idx, lambda: "sample %s: threshold %r is none of those evaluated" % (s["name"], row["threshold"]))
        i = idx[0]
        what = "sample %s: " % s["name"]
        cr = recover(what + "recall", row["recall"], s["sum_r"][i], s["lo_r"][i], s["count_r"][i])
        cp = recover(what + "precision", row["precision"], s["sum_p"][i], s["lo_p"][i], s["count_p"][i])
        if single and s["sum_r"][i] and s["sum_p"][i]:
            mr.need(cr == cp, lambda: "%srecall counts %d matches, precision %d" % (what, cr, cp))
        f = mr.prf(cr, s["sum_r"][i], cp, s["sum_p"][i])[2]
        mr.need(mr.close(row["f1"], f, 1.1e-6), lambda: "%sF1 is %r, expected %r" % (what, row["f1"], f))
        floor = max(mr.prf(s["lo_r"][k], s["sum_r"][k], s["lo_p"][k], s["sum_p"][k])[2] for k in range(len(thr)))
        mr.need(f >= floor - 1e-9, lambda: "%sF1 is %r at the reported threshold, another reaches at least %r" % (what, f, floor))
        if len(tables) == 1:
            mr.need((cr, cp) == counts[i] , lambda: "%s%r matches, %r in the threshold results" % (what, (cr, cp), counts[i]))
            top = max(c[2] for c in curve)
            mr.need(f >= top - 1e-9, lambda: "%sF1 is %r at the reported threshold, %r is best" % (what, f, top))
        for j, v in enumerate((cr, s["sum_r"][i], cp, s["sum_p"][i])):
            ois[j] += v
    ov = mr.read_overall(os.path.join(d, "eval_bdry.txt"))
    for key, want in zip(("OIS_recall", "OIS_precision", "OIS_f1"), mr.prf(*map(float, ois))):
        mr.need(mr.close(ov[key], want, 1.1e-6), lambda: "%s is %r, the samples make it %r" % (key, ov[key], want))
    mr.judge_ods(thr, curve, ov, 1.1e-6)
    mr.judge_areas(curve, ov, 1.1e-6)
    return ov


def same(stored, returned):
    for k in mr.KEYS:
        mr.need(mr.close(stored[k], returned[k], 1.1e-6), lambda: "%s is returned as %r and stored as %r" % (k, returned[k], stored[k]))


def ideal(tables, stored):
    if all(max(s["sum_r"]) > 20 for s in tables):
        low = min(s["lo_r"][0] / s["sum_r"][0] for s in tables) - 1e-6
        mr.need(all(stored[k] >= low for k in ("ODS_f1", "OIS_f1", "ODS_recall", "OIS_precision")), lambda: "a perfect prediction scores %r" % stored)


def judge_tree(case, t, world, ev, d):
    c = case["tree"]
    thr = w.thr_values(case["thr"])
    out = os.path.join(d, "out")
    per_cat = []
    for cat in c["cats"]:
        tables = rows_table(world, c["names"], cat, world.prot, thr)
        if w.ambiguous(tables):
            t.label("ambiguous")
            return
        per_cat.append(tables)

    def result(cat, tables, ov):
        stored = judge(os.path.join(out, "class_%03d" % cat), thr, tables, True)
        if ov is not None:
            same(stored, ov)
        if c["perfect"]:
            ideal(tables, stored)

    try:
        if case["all"]:
            t.call(ev.evaluate, categories=list(c["cats"]), thresholds=case["thr"], nproc=case["nproc"], save_dir=out)
            for cat, tables in zip(c["cats"], per_cat):
                result(cat, tables, None)
        else:
            for cat, tables in zip(c["cats"], per_cat):
                ov = t.call(ev.evaluate_category, category=cat, thresholds=case["thr"], nproc=case["nproc"], save_dir=out)
                result(cat, tables, ov)
    except mr.Mismatch as e:
        t.fail("%s (%dx%d): %s" % (c["kind"], c["h"], c["w"], e))
    big = max(max(s["sum_r"]) for tables in per_cat for s in tables)
    part = any(0 < a < b for tables in per_cat for s in tables for a, b in zip(s["count_r"], s["sum_r"]))
    t.nontrivial(big > 300 and (part or c["perfect"]))
    t.label("over 2000 ground-truth pixels", big > 2000)


def check_tree(case, t):
    c = case["tree"]
    kind = c["kind"]
    prot = w.protocol(kind, case["kw"])
    if prot is None:
        case = dict(case, kw=dict(case["kw"], instance_sensitive=False))
        prot = w.protocol(kind, case["kw"])
    if ref.tol_ambiguous(w.max_px(c, prot)):
        t.label("ambiguous tolerance")
        return
    d = t.tmp()
    world = ct.Tree(c, d)
    world.lay_out(prot)
    world.write(decoys=False)
    world.write_split(c["names"])
    ev = make(t, world)
    t.call(ev.set_eval_params, **case["kw"])
    judge_tree(case, t, world, ev, d)
    t.label(kind)
    t.label("perfect", c["perfect"])
    t.label("kill", prot["kill"])
    t.label("thinning", prot["thinning"])
    t.label("moved by more than a pixel", world.far > 1)
    t.label("no shapes", not world.boxes())
    t.label("predictions around the tolerance", c["halo"])


@st.composite
def bsds_case(draw, nprocs=(1,)):
    c = draw(base("bsds", draw(st.lists(st.sampled_from(w.BSDS_NAMES), min_size=1, max_size=3, unique=True))))
    c.update(cats=[1], up=False, predup=False, split=draw(st.sampled_from(["test", "val"])), gt_dir=None, pred_suffix=None, thin=False)
    return {"tree": c, "thr": draw(w.thresholds(4)), "thin": draw(st.booleans()), "max_dist": draw(st.sampled_from([None, None, 0.0075, 0.0151, 0.0035])), "nproc": draw(st.sampled_from(nprocs)),
            "flat": draw(st.booleans())}


def check_bsds(case, t):
    from pyEdgeEval.evaluators import BSDS500Evaluator

    c = case["tree"]
    prot = {"thinning": case["thin"], "max_dist": 0.0075 if case["max_dist"] is None else case["max_dist"], "nms": False}
    if ref.tol_ambiguous(ref.tol_px((c["h"], c["w"]), prot["max_dist"])):
        t.label("ambiguous tolerance")
        return
    d = t.tmp()
    world = ct.Bsds(c, d)
    world.lay_out(prot)
    world.write(decoys=False)
    ev = t.call(BSDS500Evaluator, world.root, world.pred_root, c["split"])
    names = ["%s/%s" % (c["split"], n) for n in c["names"]]
    t.call(ev.set_sample_names, list(names))
    t.call(ev.set_eval_params, apply_thinning=case["thin"], **({} if case["max_dist"] is None else {"max_dist": case["max_dist"]}))
    thr = w.thr_values(case["thr"])
    tables = [world.brow(n, case["flat"], prot, case["thr"]) for n in c["names"]]
    if w.ambiguous(tables):
        t.label("ambiguous")
        return
    out = os.path.join(d, "out")
    ov = t.call(ev.evaluate, thresholds=case["thr"], nproc=case["nproc"], save_dir=out, no_split_dir=case["flat"])
    try:
        stored = judge(out, thr, tables, False)
        same(stored, ov)
        if c["perfect"]:
            ideal(tables, stored)
    except mr.Mismatch as e:
        t.fail("bsds (%dx%d): %s" % (c["h"], c["w"], e))
    big = max(max(s["sum_r"]) for s in tables)
    t.nontrivial(big > 300 and (c["perfect"] or any(0 < a < b for s in tables for a, b in zip(s["count_r"], s["sum_r"]))))
    t.label("over 2000 ground-truth pixels", big > 2000)
    t.label("perfect", c["perfect"])
    t.label("no shapes", not world.boxes())


SUBS = [Sub("trees", tree_case, check_tree, 800, 12000),
        Sub("replaced", lambda: g.replaced(tree_case), g.check_replaced(check_tree), 40, 600),
        Sub("replaced bsds", lambda: g.replaced(bsds_case), g.check_replaced(check_bsds), 40, 500),
        Sub("bsds", bsds_case, check_bsds, 300, 4000),
        Sub("parallel", lambda: tree_case((2, 4)), check_tree, 40, 500)]
