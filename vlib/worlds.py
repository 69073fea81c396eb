"""Dataset trees for the evaluators. Every file has its own content, a function of the tree's seed and the file's path.

Content is sparse: the image is divided into cells, and a cell holds at most one edge pixel per ground truth and one predicted
spot, far from those of other cells, so the counts of every file combination are known and differ from each other.
"""
import math
import os
import zlib

import numpy as np
from hypothesis import strategies as st

from . import datasets as ds
from . import evalref
from . import metricsref as mr
from . import ref

CELL = 12
KINDS = ("cityscapes", "half", "otf", "sbd", "reanno")
NCLASS = {"cityscapes": 19, "half": 19, "otf": 19, "sbd": 20, "reanno": 20}
EDGE = {"cityscapes": "_gtProc", "half": "_gtProc_half", "sbd": "", "reanno": "_reanno"}
SUFFIXES = ["_leftImg8bit.png", ".png", "_pred.png"]
CITY_NAMES = ["lindau/lindau_000000_000019", "lindau/lindau_000001_000019", "ulm/ulm_000000_000019", "munster/val_000000_000019", "lindau/a", "lindau/aa"]
SBD_NAMES = ["2008_000002", "2008_000003", "2008_0000021", "2011_003276", "val", "a.b"]


def evaluator_class(kind):
    from pyEdgeEval import evaluators as E
    from pyEdgeEval.evaluators.sbd import ReannoSBDEvaluator

    return {"cityscapes": E.CityscapesEvaluator, "half": E.HalfCityscapesEvaluator, "otf": E.OTFCityscapesEvaluator, "sbd": E.SBDEvaluator, "reanno": ReannoSBDEvaluator}[kind]


CITY_CLASSES = "road sidewalk building wall fence pole trafficlight trafficsign vegetation terrain sky person rider car truck bus train motorcycle bicycle".split()
VOC_CLASSES = "aeroplane bicycle bird boat bottle bus car cat chair cow diningtable dog horse motorbike person pottedplant sheep sofa train tvmonitor".split()


def is_class(kind, category, name):
    """Whether this is the dataset's name of a category, up to how it is spelt."""
    return "".join(ch for ch in name.lower() if ch.isalpha()) == (CITY_CLASSES if is_city(kind) else VOC_CLASSES)[category - 1]


def is_city(kind):
    return kind in ("cityscapes", "half", "otf")


def untied(v):
    """Values k/255 that no threshold hits exactly: how 1/255 rounds must not matter."""
    v = np.asarray(v)
    return (v + (v % 17 == 0) * 1).clip(0, 254).astype(np.uint8)


def rng_of(*key):
    return np.random.default_rng(zlib.crc32("|".join(map(str, key)).encode()))


@st.composite
def thresholds(draw, nmax=4, noise=False):
    """With NMS responses are multiples of 1/20400: thresholds between them."""
    if noise:
        return [x / 100 + 0.00037 for x in draw(st.lists(st.integers(1, 98), min_size=1, max_size=nmax, unique=True))]
    if draw(st.sampled_from([False, False, True])):
        return draw(st.integers(1, nmax)) if draw(st.integers(0, 9)) < 9 else draw(st.integers(10, 30))
    v = draw(st.lists(st.integers(1, 99), min_size=1, max_size=nmax, unique=True))
    return [x / 100 for x in v]


def thr_values(thr):
    return [(i + 1) / (thr + 1) for i in range(thr)] if isinstance(thr, int) else [float(x) for x in thr]


@st.composite
def names_of(draw, pool, nmax):
    """Sample names in any order, now and then more than ten."""
    if draw(st.integers(0, 19)) == 19 and nmax > 2:
        k = draw(st.integers(9, 13))
        base = [n + x for n in pool for x in ("", "9", "10", "_b")]
        return draw(st.permutations(base))[:k]
    names = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=nmax, unique=True))
    if draw(st.integers(0, 9)) == 9:  # a blank inside the name
        names[0] = names[0] + " (2)"
    return names


@st.composite
def height_width(draw):
    h, w = draw(st.integers(38, 64)), draw(st.integers(38, 64))
    if draw(st.integers(0, 11)) == 11:
        h, w = draw(st.sampled_from([(h, 3 * w), (3 * h, w), (2 * h, 2 * w), (h, 270)]))
    return h, w


@st.composite
def tree(draw, kinds=KINDS, nmax=3):
    kind = draw(st.sampled_from(list(kinds)))
    n = NCLASS[kind]
    pool = CITY_NAMES if is_city(kind) else SBD_NAMES
    names = draw(names_of(pool, nmax))
    if kind == "otf":
        cats = draw(st.lists(st.sampled_from([12, 14, 1, 3, 13, 19, 2]), min_size=1, max_size=2, unique=True))
    else:
        cats = draw(st.lists(st.one_of(st.integers(1, n), st.sampled_from([1, n, 9, 10])), min_size=1, max_size=3, unique=True))
    noise = draw(st.sampled_from([False, False, False, True]))
    h, w = draw(height_width()) if not noise else (draw(st.integers(38, 64)), draw(st.integers(38, 64)))
    return {"kind": kind, "names": names, "cats": cats, "noise": noise, "seed": draw(st.integers(0, 10**6)), "h": h, "w": w,
            "up": draw(st.sampled_from([True, True, False])) if kind == "cityscapes" else not noise and draw(st.sampled_from([False, True] if kind == "otf" else [False, False, False, True])),
            "predup": draw(st.booleans()), "split": draw(st.sampled_from(["val", "val", "test"])), "thin": draw(st.booleans()),
            "gt_dir": draw(st.sampled_from([None, None, "gtEval", "gtOther"])), "pred_suffix": draw(st.sampled_from([None, None] + SUFFIXES))}


class World:
    def __init__(self, case, root):
        self.case = case
        self.kind = case["kind"]
        self.city = is_city(self.kind)
        self.root = os.path.join(root, "data")
        self.pred_root = os.path.join(root, "preds")
        self.n = NCLASS[self.kind]
        self.memo = {}
        self.gt_dir = case["gt_dir"] or "gtEval"
        self.suffix = case["pred_suffix"] or ("_leftImg8bit.png" if self.city else ".png")

    # contents ------------------------------------------------------------
    def cells(self):
        return [(y, x) for y in range(CELL // 2, self.case["h"] - 2, CELL) for x in range(CELL // 2, self.case["w"] - 2, CELL)]

    def layout(self, name, cat):
        r = rng_of(self.case["seed"], "layout", name, cat)
        empty = r.random() < 0.15
        st_ = r.choice(["both", "gt", "pred", "blob", "none"], size=len(self.cells()), p=[0.28, 0.1, 0.17, 0.12, 0.33])
        return empty, st_

    def up(self, a, on=True):
        return a.repeat(2, 0).repeat(2, 1) if on and self.case["up"] else a

    def plane(self, path, name, cat, annot=0):
        """One edge map of a file, at the base size."""
        h, w = self.case["h"], self.case["w"]
        out = np.zeros((h, w), bool)
        empty, states = self.layout(name, cat)
        r = rng_of(self.case["seed"], path, cat, annot)
        for (y, x), s in zip(self.cells(), states):
            dy, dx = r.integers(-1, 2, 2)
            drop = r.random() < 0.25
            if s in ("both", "gt", "blob") and not empty and not drop and not (s == "blob" and annot):
                if y + dy < h and x + dx < w:
                    out[y + dy, x + dx] = True
        return out

    def edges(self, path, name):
        key = ("e", path)
        if key not in self.memo:
            h, w = self.case["h"], self.case["w"]
            out = np.zeros((self.n, h, w), bool)
            for c in self.case["cats"]:
                for k in (c - 1, c, c + 1):
                    if 1 <= k <= self.n:
                        out[k - 1] = self.plane(path, name, k)
            self.memo[key] = out
        return self.memo[key]

    def pred(self, path, name, cat):
        h, w = self.case["h"], self.case["w"]
        out = np.zeros((h, w), np.uint8)
        r = rng_of(self.case["seed"], path)
        if self.case["noise"]:
            return untied(r.integers(1, 254, (h, w)))
        if self.kind == "otf":
            for y, x in self.cells():
                v, dy, dx, p = int(untied(r.integers(20, 254))), int(r.integers(-3, 4)), int(r.integers(-3, 4)), r.random()
                if p < 0.45 and y + dy < h and x + dx < w:
                    out[y + dy, x + dx] = v
            return out
        _, states = self.layout(name, cat)
        for (y, x), s in zip(self.cells(), states):
            v = int(untied(r.integers(20, 254)))
            drop = r.random() < 0.2
            if drop or s in ("gt", "none"):
                continue
            if s == "blob":
                out[y - 1:y + 2, x - 1:x + 2] = v
            else:
                out[y, x] = v
        return out

    def label_maps(self, path, name):
        key = ("l", path)
        if key not in self.memo:
            h, w = self.case["h"], self.case["w"]
            r = rng_of(self.case["seed"], path)
            lab = np.full((h, w), int(r.choice([0, 21, 23])), np.uint8)
            inst = lab.astype(np.uint16)
            for y, x in self.cells():
                v, p, a, q = int(r.choice(self.case["cats"])), r.random(), int(r.integers(2, 4)), r.random()
                if p > (0.1 if self.case["noise"] else 0.15):
                    continue
                L = ds.LABEL[v - 1]
                ys, xs = slice(y - a, y + a), slice(x - a, x + a)
                lab[ys, xs] = L
                inst[ys, xs] = L
                if L in ds.INST and q < 0.8:
                    inst[ys, slice(x - a, x)] = L * 1000 + int(r.integers(0, 200))
                    inst[ys, slice(x, x + a)] = L * 1000 + int(r.integers(0, 200))
                elif q > 0.9:
                    lab[y:y + a, xs] = 3
                    inst[y:y + a, xs] = 3
            self.memo[key] = lab, inst
        return self.memo[key]

    def seg(self, path, name):
        h, w = self.case["h"], self.case["w"]
        r = rng_of(self.case["seed"], path)
        vals = sorted({k for c in self.case["cats"] for k in (c - 1, c)} | {255, 0})
        out = np.zeros((h, w), np.uint8)
        for y in range(0, h, CELL):
            for x in range(0, w, CELL):
                out[y:y + CELL, x:x + CELL] = r.choice(vals)
        return out

    # paths ---------------------------------------------------------------
    def gt_paths(self, name, gt_dir=None, split=None):
        """Relative ground truth paths by role."""
        gt_dir = gt_dir or self.gt_dir
        split = split or self.case["split"]
        if self.kind == "otf":
            b = os.path.join("gtFine", split, name)
            return {"lab": b + "_gtFine_labelIds.png", "inst": b + "_gtFine_instanceIds.png"}
        b = os.path.join(gt_dir, split, name) if self.city else os.path.join(gt_dir, name)
        out = {(thin, is_): "%s%s_%s_%s.png" % (b, EDGE[self.kind], "thin" if thin else "raw", "isedge" if is_ else "edge") for thin in (False, True) for is_ in (False, True)}
        out["seg"] = b + ("_gtFine_labelTrainIds.png" if self.city else "_labelIds.png")
        return out

    def pred_path(self, name, cat, suffix=None):
        return os.path.join("class_%03d" % cat, name + (self.suffix if suffix is None else suffix))

    def write_gt(self, name, gt_dir=None, split=None):
        p = self.gt_paths(name, gt_dir, split)
        if self.kind == "otf":
            lab, inst = self.label_maps(p["lab"], name)
            ds.write_img(os.path.join(self.root, p["lab"]), self.up(lab))
            ds.write_img(os.path.join(self.root, p["inst"]), self.up(inst))
            return
        for role, rel in p.items():
            if role == "seg":
                ds.write_img(os.path.join(self.root, rel), self.up(self.seg(rel, name)))
            else:
                ds.write_img(os.path.join(self.root, rel), self.up(ds.rgb_encode(self.edges(rel, name))))

    def write_pred(self, name, cat, suffix=None):
        rel = self.pred_path(name, cat, suffix)
        ds.write_img(os.path.join(self.pred_root, rel), self.up(self.pred("preds/" + rel, name, cat), self.case["predup"]))

    def split_file(self, split=None):
        split = split or self.case["split"]
        return os.path.join(self.root, "splits" if self.city else "", split + ".txt")

    def write_split(self, names, split=None, path=None, newline=True):
        path = path or self.split_file(split)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write("\n".join(names) + ("\n" if newline else ""))

    def write(self, names=None, decoys=True):
        c = self.case
        names = c["names"] if names is None else names
        for d in (os.path.join(self.root, "gtFine", c["split"]), os.path.join(self.root, self.gt_dir, c["split"] if self.city else ""), self.pred_root):
            os.makedirs(d, exist_ok=True)
        for i, name in enumerate(names):
            self.write_gt(name)
            for cat in c["cats"]:
                self.write_pred(name, cat)
            if decoys:
                if i == 0:
                    self.write_gt(name, split="test" if c["split"] == "val" else "val") if self.city else None
                    if self.kind != "otf":
                        self.write_gt(name, gt_dir="gtOther" if self.gt_dir == "gtEval" else "gtEval")
                other = (c["cats"][0] % self.n) + 1
                if other not in c["cats"]:
                    self.write_pred(name, other)
                for sfx in SUFFIXES:
                    if sfx != self.suffix:
                        for cat in c["cats"]:
                            self.write_pred(name, cat, sfx)

    # expectation ---------------------------------------------------------
    def rows(self, name, cat, prot, thr, thin=None, suffix=None):
        """prot: scale, thinning, nms, max_dist, kill, skip, is."""
        thin = self.case["thin"] if thin is None else thin
        p = self.gt_paths(name)
        h0, w0 = self.case["h"] * (2 if self.case["up"] else 1), self.case["w"] * (2 if self.case["up"] else 1)
        h, w = ds.target_size((h0, w0), prot["scale"])
        rel = self.pred_path(name, cat, suffix)
        pred = ref.resize_nearest(self.up(self.pred("preds/" + rel, name, cat), self.case["predup"]), w, h) / 255.0
        if self.kind == "otf":
            lab, inst = self.label_maps(p["lab"], name)
            lab, inst = ref.resize_nearest(self.up(lab), w, h), ref.resize_nearest(self.up(inst), w, h)
            L = ds.LABEL[cat - 1]
            ign = (lab == 2) | (lab == 3)
            radius = 1 if thin else 2
            gt = np.zeros((h, w), bool)
            seg = lab == L
            if seg.any():
                gt = ref.class_edge(seg, ign, radius)
                if prot["is"]:
                    for i in np.unique(inst):
                        if i >= 24000 and i // 1000 == L:
                            gt = gt | ref.class_edge(inst == i, ign, radius)
        else:
            e = self.edges(p[(thin, prot["is"])], name)[cat - 1]
            gt = ref.resize_nearest(self.up(e), w, h)
            seg = ref.resize_nearest(self.up(self.seg(p["seg"], name)), w, h) == (cat - 1 if self.city else cat)
            if not self.city:
                inner = np.zeros((h, w), bool)
                inner[5:max(5, h - 5), 5:max(5, w - 5)] = True
                pred = pred * inner
        return evalref.expected(np.asarray(thr, float), pred, gt, prot["max_dist"], prot["thinning"], ds.fast_nms_ref if prot["nms"] else None,
                                prot["skip"], seg if prot["kill"] else None)

    def table(self, names, cat, prot, thr, **kw):
        return [table_of(n, self.rows(n, cat, prot, thr, **kw)) for n in names]


def table_of(name, rows):
    return dict(name=name, count_r=[r.hi for r in rows], sum_r=[r.sum_r for r in rows], count_p=[r.hi for r in rows], sum_p=[r.sum_p for r in rows],
                ns=[r.matchable for r in rows], amb=any(r.amb for r in rows))


def ambiguous(tables):
    return any(s["amb"] for s in tables)


def tries_for(tables):
    """Evaluations after which a shortfall in every one of them is out of the question (None: too many)."""
    ok = 1.0
    for s in tables:
        for n in s["ns"]:
            if n > 7:
                ok *= max(0.0, 1 - 0.003 * n)
    if ok >= 1.0:
        return 1
    k = math.ceil(math.log(1e-10) / math.log(1 - ok)) if ok > 0.05 else None
    return k


def advance(k):
    from pyEdgeEval._lib import correspond_pixels

    a = rng_of("advance", k).random((9, 9)) < 0.5
    for _ in range(1 + k % 5):
        correspond_pixels(a, a.T, 0.2)


def settle(t, go, judge, tables):
    """Evaluate and judge. Counts may fall short in a single call when more than seven pixels are matchable, so try again then."""
    k = tries_for(tables)
    if k is None:
        t.label("too many matches to judge")
        return None
    last, same = None, 0
    for i in range(k):
        if i:
            # worker processes inherit the state of the random generator: move it on
            advance(i)
        res = go()
        try:
            return judge(res)
        except mr.Mismatch as e:
            # the shortfalls of a row are rare, and one number every time is not one of them
            same = same + 1 if last is None or str(e) == str(last) else -k
            last = e
            if same >= 40:
                break
    t.fail(str(last))


# protocols ---------------------------------------------------------------
DEFAULTS = {"cityscapes": dict(scale=0.5, max_dist=0.0035), "half": dict(scale=0.5, max_dist=0.0035), "otf": dict(scale=0.5, max_dist=0.0035),
            "sbd": dict(scale=1.0, max_dist=0.02), "reanno": dict(scale=1.0, max_dist=0.0075)}


def protocol(kind, kw):
    """The documented parameters for set_eval_params(**kw), or None when they are rejected."""
    d = dict(eval_mode=None, apply_thinning=False, apply_nms=False, instance_sensitive=True, skip_if_nonexistent=False, kill_internal=False)
    d.update(DEFAULTS[kind])
    d.update(kw)
    if kind != "half" and not 0 < d["scale"] <= 1:
        return None
    p = dict(scale=1.0 if kind == "half" else d["scale"], thinning=d["apply_thinning"], nms=d["apply_nms"], max_dist=d["max_dist"])
    p["is"] = d["instance_sensitive"]
    p["kill"], p["skip"] = d["kill_internal"], d["skip_if_nonexistent"]
    if kind == "reanno":
        p["kill"] = p["skip"] = False
    elif d["eval_mode"] == "pre-seal":
        if d["instance_sensitive"] and kind != "sbd":
            return None
        p.update(max_dist=0.02, kill=True, skip=True)
        p["is"] = False
    elif d["eval_mode"] == "post-seal":
        p["kill"] = p["skip"] = not p["is"]
    return p


@st.composite
def eval_kwargs(draw, noise=False, bad=False):
    """With noise predictions NMS is well-conditioned, and tolerances below one pixel keep the counts determined."""
    kw = {}
    opt = {"eval_mode": st.sampled_from(["post-seal", None] if noise else ["pre-seal", "post-seal", None, "post-seal"]),
           "scale": st.sampled_from([1.0, 0.5, 1, 0.5] + ([0, -0.5, 1.5, 1.0001] if bad else [])),
           "apply_thinning": st.booleans(), "apply_nms": st.booleans() if noise else st.just(False), "instance_sensitive": st.booleans(),
           "max_dist": st.sampled_from([0.004, 0.006] if noise else [0.004, 0.0185, 0.03, 0.0257, 0.045]), "skip_if_nonexistent": st.booleans(), "kill_internal": st.booleans()}
    for k, s in opt.items():
        if draw(st.sampled_from([True, True, False])) or (noise and k == "max_dist"):
            kw[k] = draw(s)
    return kw


def max_px(case, prot):
    h, w = case["h"] * (2 if case["up"] else 1), case["w"] * (2 if case["up"] else 1)
    return prot["max_dist"] * math.hypot(*ds.target_size((h, w), prot["scale"]))


# BSDS --------------------------------------------------------------------
BSDS_NAMES = ["100007", "3063", "30630", "test_1", "val", "a.b", "100007_2"]


@st.composite
def bsds_tree(draw, nmax=3):
    noise = draw(st.sampled_from([False, False, False, True]))
    h, w = draw(height_width()) if not noise else (draw(st.integers(38, 64)), draw(st.integers(38, 64)))
    return {"kind": "bsds", "names": draw(names_of(BSDS_NAMES, nmax)), "seed": draw(st.integers(0, 10**6)),
            "h": h, "w": w, "up": False, "predup": False, "split": draw(st.sampled_from(["test", "val"])),
            "noise": noise,
            "cats": [1], "gt_dir": None, "pred_suffix": None}


class BsdsWorld(World):
    def __init__(self, case, root):
        self.case = case
        self.kind = "bsds"
        self.city = False
        self.root = os.path.join(root, "data")
        self.pred_root = os.path.join(root, "preds")
        self.n = 1
        self.memo = {}

    def annots(self, rel, name):
        r = rng_of(self.case["seed"], rel, "k")
        k = 1 + int(r.integers(0, 4)) if r.random() < 0.85 else int(r.integers(5, 9))
        # annotators may agree exactly
        same = r.random() < 0.3
        which = [0]
        for a in range(1, k):
            which.append(int(r.choice(which)) if same and r.random() < 0.5 else a)
        return np.stack([self.plane(rel, name, 1, a) for a in which])

    def write(self, names=None, decoys=True):
        split = self.case["split"]
        os.makedirs(self.pred_root, exist_ok=True)
        os.makedirs(os.path.join(self.root, "groundTruth", split), exist_ok=True)
        for name in self.case["names"] if names is None else names:
            for sp in (split, "test" if split == "val" else "val")[:2 if decoys else 1]:
                rel = "groundTruth/%s/%s.mat" % (sp, name)
                ds.write_bsds_mat(os.path.join(self.root, rel), self.annots(rel, name))
            for rel in ("%s/%s.png" % (split, name), "%s.png" % name):
                ds.write_img(os.path.join(self.pred_root, rel), self.pred("preds/" + rel, name, 1))

    def brow(self, name, flat, prot, thr, split=None):
        split = split or self.case["split"]
        gts = self.annots("groundTruth/%s/%s.mat" % (split, name), name)
        rel = "%s.png" % name if flat else "%s/%s.png" % (split, name)
        pred = self.pred("preds/" + rel, name, 1) / 255.0
        h, w = pred.shape
        nms = ds.fast_nms_ref(pred) if prot["nms"] else None
        d = ref.tol_px(pred.shape, prot["max_dist"])
        out = dict(name="%s/%s" % (split, name), count_r=[], sum_r=[], count_p=[], sum_p=[], ns=[], amb=False)
        alt = ds.nms_alt(pred) if prot["nms"] else None
        for th in thr_values(thr):
            out["amb"] = out["amb"] or evalref.rounding_decides(nms, alt, th)
            P = evalref.predicted(pred, th, prot["thinning"], nms)
            union = np.zeros(P.shape, bool)
            cr = 0
            for gt in gts:
                k, n1, n2 = ref.max_matching(P, gt, d)
                cr += k
                out["ns"].append(max(n1, n2))
                near = P & (ref.dist_to(gt) <= d)
                if d < 1:
                    union |= near
                    continue
                # one spot and at most one annotated pixel per cell: which of its pixels is matched does not matter
                for y, x in self.cells():
                    ys, xs = slice(y - 5, y + 6), slice(x - 5, x + 6)
                    if near[ys, xs].any():
                        union[y, x] = True
            out["count_r"].append(cr)
            out["sum_r"].append(int(gts.sum()))
            out["count_p"].append(int(union.sum()))
            out["sum_p"].append(int(P.sum()))
        return out
