"""Dataset trees of ordinary size whose contours are whole lines, curves, outlines and blobs.

The image is divided into large cells. A cell holds at most one shape; the ground truth has it, the prediction has it (moved by less
than the tolerance), or both, and shapes of different cells are farther apart than the tolerance. Where both have it every pixel has
its own partner, so each shape matches as a whole: the counts of every file combination are known exactly at any image size.
"""
import math

import numpy as np

from . import datasets as ds
from . import evalref
from . import ref
from . import worlds as w

SLACK = (6, 0.012)  # a call may miss about one match in 400, see C02
LOOSE = 0.04
SHAPES = ["walk", "walk", "line", "outline", "circle", "blob", "dots", "cross", "comb"]


def least(k, n=None):
    """The fewest matches a call may report where k are possible; n: matchable pixels, where some of them have no partner of their own."""
    n = k if n is None else n
    return k if n <= 7 else max(0, int(k - SLACK[0] - (SLACK[1] if n == k else LOOSE) * n))


def segment(out, y0, x0, y1, x1):
    n = max(abs(y1 - y0), abs(x1 - x0), 1)
    for i in range(n + 1):
        out[int(round(y0 + (y1 - y0) * i / n)), int(round(x0 + (x1 - x0) * i / n))] = True


def shape(r, b):
    """A shape in a box of side b."""
    out = np.zeros((b, b), bool)
    kind = SHAPES[int(r.integers(0, len(SHAPES)))]
    y, x = int(r.integers(0, b)), int(r.integers(0, b))
    if kind == "walk":
        a = r.random() * 2 * math.pi
        fy, fx = float(y), float(x)
        for _ in range(int(r.integers(3, 4 * b))):
            out[int(fy), int(fx)] = True
            a += (r.random() - 0.5) * 0.9
            fy, fx = min(max(fy + math.sin(a), 0), b - 1), min(max(fx + math.cos(a), 0), b - 1)
    elif kind == "line":
        segment(out, y, x, int(r.integers(0, b)), int(r.integers(0, b)))
    elif kind == "outline":
        y1, x1 = int(r.integers(0, b)), int(r.integers(0, b))
        for p in ((y, x, y1, x), (y, x, y, x1), (y1, x, y1, x1), (y, x1, y1, x1)):
            segment(out, *p)
    elif kind == "circle":
        c, q = (b - 1) / 2, (0.3 + 0.7 * r.random()) * (b - 1) / 2
        for k in range(8 * b):
            out[int(round(c + q * math.sin(k / b))), int(round(c + q * math.cos(k / b)))] = True
    elif kind == "blob":
        k = int(r.integers(2, max(3, min(b, 16))))
        out[:k, :int(r.integers(2, max(3, min(b, 16))))] = True
    elif kind == "dots":
        out[r.integers(0, b, 6), r.integers(0, b, 6)] = True
    elif kind == "cross":
        segment(out, 0, 0, b - 1, b - 1)
        segment(out, b - 1, 0, 0, b - 1)
    else:
        out[b // 2] = True
        out[:b // 2, ::4] = True
    out[y, x] = True
    return out


class Contours:
    """Mixin for w.World and w.BsdsWorld. case also has: box, states, perfect, border; self.prot is the protocol in force."""

    def lay_out(self, prot):
        self.prot = prot
        self.tol = ref.tol_px((self.case["h"], self.case["w"]), prot["max_dist"])
        self.far = int(min(4, math.floor(self.tol)))
        # shapes of neighbouring cells stay farther apart than the tolerance although both are moved
        self.margin = max(6, int(math.ceil(self.tol * (2 if self.case["halo"] else 0.5))) + self.far + 3)
        self.cell = self.case["box"] + 2 * self.margin

    def boxes(self):
        s, m, b = self.cell, self.margin, self.case["box"]
        return [(y + m, x + m, b) for y in range(0, self.case["h"] - s + 1, s) for x in range(0, self.case["w"] - s + 1, s)]

    def layout(self, name, cat):
        r = w.rng_of(self.case["seed"], "layout", name, cat)
        boxes = self.boxes()
        if self.case["perfect"]:
            return r.choice(["both", "none"], size=len(boxes), p=[0.7, 0.3])
        if r.random() < 0.08:
            return np.array([["none", "pred", "gt"][int(r.integers(0, 3))]] * len(boxes))
        return r.choice(["both", "gt", "pred", "none"], size=len(boxes), p=[0.45, 0.15, 0.15, 0.25])

    def shape_of(self, name, cat, i, b):
        key = ("s", name, cat, i)
        if key not in self.memo:
            s = shape(w.rng_of(self.case["seed"], "shape", name, cat, i), b)
            self.memo[key] = s, ref.thin(s) if self.prot["thinning"] else s
        return self.memo[key]

    def shift(self, *key):
        r = w.rng_of(self.case["seed"], "shift", *key)
        dy, dx = (int(v) for v in r.integers(-self.far, self.far + 1, 2))
        return (dy, dx) if math.hypot(dy, dx) < self.tol * 0.999 else (0, 0)

    def plane(self, path, name, cat, annot=0):
        key = ("p", path, name, cat, annot)
        if key in self.memo:
            return self.memo[key]
        out = np.zeros((self.case["h"], self.case["w"]), bool)
        r = w.rng_of(self.case["seed"], path, cat, annot)
        for i, ((y, x, b), st_) in enumerate(zip(self.boxes(), self.layout(name, cat))):
            drop = r.random() < 0.2 and not (self.case["perfect"] and self.main(path))
            if st_ not in ("both", "gt") or drop:
                continue
            s = self.shape_of(name, cat, i, b)[1]
            dy, dx = self.shift(path, cat, annot, i)
            out[y + dy:y + dy + b, x + dx:x + dx + b] |= s
        self.memo[key] = out
        return out

    def main(self, path):
        return True

    def contours_of(self, name, cat):
        """The annotated contours, where they are known beforehand."""
        if self.kind == "otf":
            return self.gt_of(name, cat)

    def pred(self, path, name, cat):
        out = np.zeros((self.case["h"], self.case["w"]), np.uint8)
        r = w.rng_of(self.case["seed"], path)
        gt = self.gt_of(name, cat) if self.kind == "otf" else None
        for i, ((y, x, b), st_) in enumerate(zip(self.boxes(), self.layout(name, cat))):
            v, drop = int(w.untied(r.integers(20, 254))), r.random() < 0.1
            if self.case["perfect"]:
                v, drop = 254, False
            if drop:
                continue
            dy, dx = 0, 0
            s = self.shape_of(name, cat, i, b)[0]
            if gt is not None:
                g = gt[y:y + b, x:x + b]
                if g.any():
                    if st_ == "gt" and not self.case["perfect"]:
                        continue
                    s = g
                    dy, dx = self.shift(path, cat, i)
                elif st_ != "pred":
                    continue
            elif st_ not in ("both", "pred"):
                continue
            part = out[y + dy:y + dy + b, x + dx:x + dx + b]
            part[s] = v
        if self.case["halo"] and not self.case["perfect"]:
            # single pixels at every distance around the tolerance from missed contours
            q = int(math.ceil(self.tol)) + 2
            for i, ((y, x, b), st_) in enumerate(zip(self.boxes(), self.layout(name, cat))):
                if st_ == "gt" and gt is None:
                    for dy, dx in r.integers(-q, b + q, (10, 2)):
                        if 5 <= y + dy < self.case["h"] - 5 and 5 <= x + dx < self.case["w"] - 5:
                            out[y + dy, x + dx] = int(w.untied(r.integers(20, 254)))
            # and some as near to it as the grid of pixels allows
            near = self.contours_of(name, cat)
            if near is not None and near.any():
                off = np.abs(ref.dist_to(near, self.tol + 2) - self.tol)
                off[:5], off[-5:], off[:, :5], off[:, -5:] = np.inf, np.inf, np.inf, np.inf
                off[out > 0] = np.inf
                close = np.argwhere(off < 0.12)
                for y, x in close[r.permutation(len(close))[:60]]:
                    out[y, x] = int(w.untied(r.integers(20, 254)))
        if self.case["border"] and not self.case["perfect"]:
            for k in range(0, self.case["w"], 7):
                out[k % 4, k] = int(w.untied(r.integers(20, 254)))
                out[self.case["h"] - 1, k] = int(w.untied(r.integers(20, 254)))
            out[:, 1] = 77
        return out

    def seg(self, path, name):
        h, wd = self.case["h"], self.case["w"]
        r = w.rng_of(self.case["seed"], path)
        vals = sorted({k for c in self.case["cats"] for k in (c - 1, c)} | {255, 0})
        out = np.zeros((h, wd), np.uint8)
        for y in range(0, h, self.cell // 2):
            for x in range(0, wd, self.cell // 2):
                out[y:y + self.cell // 2, x:x + self.cell // 2] = r.choice(vals)
        return out

    def label_maps(self, path, name):
        key = ("l", path)
        if key not in self.memo:
            r = w.rng_of(self.case["seed"], path)
            lab = np.full((self.case["h"], self.case["w"]), int(r.choice([0, 21, 23])), np.uint8)
            inst = lab.astype(np.uint16)
            for i, (y, x, b) in enumerate(self.boxes()):
                L = ds.LABEL[int(r.choice(self.case["cats"])) - 1]
                p, q, k, cut = r.random(), r.random(), int(r.integers(0, 3)), int(r.integers(5, max(6, b - 5)))
                if p < 0.25:
                    continue
                yy, xx = np.mgrid[:b, :b]
                # three pixels from the edge of the box: its edges stay inside
                m = [(yy - b / 2) ** 2 + (xx - b / 2) ** 2 < (b / 2 - 3) ** 2, (yy > 2) & (yy < b - 3) & (xx > 2) & (xx < b - 3),
                     (abs(yy - b / 2) + abs(xx - b / 2) < b / 2 - 3)][k]
                ly, iy = lab[y:y + b, x:x + b], inst[y:y + b, x:x + b]
                ly[m] = L
                iy[m] = L
                if L in ds.INST and q < 0.8:
                    iy[m & (xx < cut)] = L * 1000 + i
                    iy[m & (xx >= cut)] = L * 1000 + i + 1
                elif q > 0.9:
                    ly[m & (yy < cut)] = 3
                    iy[m & (yy < cut)] = 3
            self.memo[key] = lab, inst
        return self.memo[key]

    def gt_of(self, name, cat):
        """OTF: the edges of a class, at the base size."""
        lab, inst = self.label_maps(self.gt_paths(name)["lab"], name)
        L = ds.LABEL[cat - 1]
        ign = (lab == 2) | (lab == 3)
        radius = 1 if self.case["thin"] else 2
        gt = np.zeros(lab.shape, bool)
        if (lab == L).any():
            gt = ref.class_edge(lab == L, ign, radius)
            if self.prot["is"]:
                for i in np.unique(inst):
                    if i >= 24000 and i // 1000 == L:
                        gt = gt | ref.class_edge(inst == i, ign, radius)
        return gt


class Tree(Contours, w.World):
    def contours_of(self, name, cat):
        if self.kind == "otf":
            return self.gt_of(name, cat)
        path = self.gt_paths(name).get((self.case["thin"], self.prot["is"]))
        return None if path is None else self.plane(path, name, cat)

    def main(self, path):
        return path == self.gt_paths(self.name_of(path)).get((self.case["thin"], self.prot["is"]))

    def name_of(self, path):
        return next((n for n in sorted(self.case["names"], key=len, reverse=True) if "/" + n + "_" in path or "/" + n + EDGE_START.get(self.kind, "_") in path), self.case["names"][0])


EDGE_START = {"cityscapes": "_gtProc", "half": "_gtProc_half"}


class Bsds(Contours, w.BsdsWorld):
    def brow(self, name, flat, prot, thr, split=None):
        split = split or self.case["split"]
        gts = self.annots("groundTruth/%s/%s.mat" % (split, name), name)
        pred = self.pred("preds/" + ("%s.png" % name if flat else "%s/%s.png" % (split, name)), name, 1) / 255.0
        out = dict(name="%s/%s" % (split, name), count_r=[], sum_r=[], count_p=[], sum_p=[], lo_r=[], lo_p=[], amb=False)
        dists = [ref.dist_to(g) for g in gts]
        for th in w.thr_values(thr):
            P = evalref.predicted(pred, th, prot["thinning"])
            union = np.zeros(P.shape, bool)
            cr = low = lost = 0
            for g, dist in zip(gts, dists):
                k, n1, n2 = ref.max_matching(P, g, self.tol)
                n = max(n1, n2)
                out["amb"] |= not k == n and not self.case["halo"]
                low += least(k, n)
                lost += k - least(k, n)
                cr += k
                union |= P & (dist <= self.tol)
            out["count_r"].append(cr)
            out["sum_r"].append(int(gts.sum()))
            out["lo_r"].append(low)
            out["lo_p"].append(max(0, int(union.sum()) - lost))
            out["count_p"].append(int(union.sum()))
            out["sum_p"].append(int(P.sum()))
        return out
