"""Expected counts of boundary evaluation, by the definitions (single ground truth)."""
import numpy as np

from . import ref


def predicted(pred, thr, thin, nms_out=None):
    p = (pred if nms_out is None else nms_out) >= thr
    return ref.thin(p) if thin else p


def rounding_decides(a, b, thr):
    """Does it depend on how k / 255 rounds which pixels reach thr after NMS?"""
    return a is not b and bool(((a >= thr) != (b >= thr)).any())


def killed(P, gt, seg, max_dist):
    """(remaining prediction, is any pixel within rounding of the limit)"""
    lim = ref.tol_px(P.shape, max_dist)
    dist = ref.dist_to(gt)
    inside = np.asarray(seg) != 0
    amb = bool((P & inside & (np.abs(dist - lim) <= 1e-9 * max(1.0, lim))).any())
    return P & ~(inside & (dist > lim)), amb


class Row:
    def __init__(self, sum_p, sum_r, hi, n, amb=False):
        self.sum_p, self.sum_r, self.hi, self.n, self.amb = sum_p, sum_r, hi, n, amb
        self.matchable = hi
        # a single call is exact up to 7 matchable pixels per side, see C02
        self.lo = hi if n <= 7 else max(0, int(hi - 6 - 0.04 * n))

    def __repr__(self):
        return "sum_p=%d sum_r=%d count in [%d,%d]" % (self.sum_p, self.sum_r, self.lo, self.hi)


def expected(thresholds, pred, gt, max_dist, thin, nms_fn=None, skip=False, seg=None, alt_pred=None):
    """alt_pred: the same prediction read with another last bit; thresholds where that matters are ambiguous."""
    gt = np.asarray(gt) != 0
    rows = []
    nms_out = nms_fn(pred) if nms_fn is not None else None
    if nms_fn is None:
        main, alt = pred, pred if alt_pred is None else alt_pred
    else:
        main, alt = nms_out, nms_fn.alt(pred) if hasattr(nms_fn, "alt") else nms_out
    for thr in thresholds:
        if skip and not gt.any():
            rows.append(Row(0, 0, 0, 0))
            continue
        P = predicted(pred, thr, thin, nms_out)
        if not gt.any():
            rows.append(Row(int(P.sum()), 0, 0, 0, rounding_decides(main, alt, thr)))
            continue
        amb = rounding_decides(main, alt, thr)
        if seg is not None:
            P, a = killed(P, gt, seg, max_dist)
            amb = amb or a
        d = ref.tol_px(gt.shape, max_dist)
        k, n1, n2 = ref.max_matching(P, gt, d)
        n = max(n1, n2)
        matchable = n
        if d < 1 and n > 7:  # one partner each: only the outliers among themselves may lose matches, about one in 400
            n = max(8, n // 5)
        rows.append(Row(int(P.sum()), int(gt.sum()), k, n, amb))
        rows[-1].matchable = matchable
    return rows


def compare(t, got, rows, rerun=None, what=""):
    """got: (count_r, sum_r, count_p, sum_p). rerun() evaluates again, for the best of several calls."""
    got = [np.asarray(x, np.float64) for x in got]
    for name, x in zip(("count_r", "sum_r", "count_p", "sum_p"), got):
        t.check(x.shape == (len(rows),), lambda: "%s%s has shape %r for %d thresholds" % (what, name, x.shape, len(rows)))
    cr, sr, cp, sp = got
    again = 0
    for i, r in enumerate(rows):
        if r.amb:
            continue
        t.check(sp[i] == r.sum_p, lambda: "%sthreshold %d: sum_p is %g, expected %d" % (what, i, sp[i], r.sum_p))
        t.check(sr[i] == r.sum_r, lambda: "%sthreshold %d: sum_r is %g, expected %d" % (what, i, sr[i], r.sum_r))
        t.check(cr[i] == cp[i], lambda: "%sthreshold %d: count_r %g and count_p %g differ" % (what, i, cr[i], cp[i]))
        t.check(cr[i] <= r.hi, lambda: "%sthreshold %d: %g matches, at most %d are possible" % (what, i, cr[i], r.hi))
        t.check(cr[i] >= r.lo, lambda: "%sthreshold %d: %g matches, %d are possible" % (what, i, cr[i], r.hi))
    if rerun is not None:
        best = cr.copy()
        want = np.array([r.hi if r.n <= 60 and not r.amb else 0 for r in rows], float)
        while (best < want).any() and again < 25:
            best = np.maximum(best, np.asarray(rerun()[0], float))
            again += 1
        i = int(np.argmax(want - best))
        t.check(not (best < want).any(), lambda: "%sthreshold %d: at most %g matches in %d calls, %d are possible" % (what, i, best[i], again + 1, rows[i].hi))
