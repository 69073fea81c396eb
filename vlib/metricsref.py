"""Expected scores from exact per-sample counts, by the definitions."""
import os

KEYS = ["ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "OIS_recall", "OIS_precision", "OIS_f1", "AUC", "AP"]


class Mismatch(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise Mismatch(msg() if callable(msg) else msg)


def f1(p, r):
    return 2 * p * r / (p + r) if p + r > 0 else 0.0


def prf(cr, sr, cp, sp):
    r = cr / sr if sr else 0.0
    p = cp / sp if sp else 0.0
    return r, p, f1(p, r)


def area_bounds(rec, prec):
    """AUC: the first of tied recalls counts; bounds over grid points at the very ends of the curve."""
    pts = sorted(set(rec))
    if len(pts) < 2:
        return 0.0, 0.0
    vals = [next(p for r, p in zip(rec, prec) if r == x) for x in pts]
    out = []
    for pick in (min, max):
        s = 0.0
        for i in range(100):
            g = i * 0.01
            v = 0.0
            if pts[0] <= g <= pts[-1]:
                for a in range(len(pts) - 1):
                    if pts[a] <= g <= pts[a + 1]:
                        w = (g - pts[a]) / (pts[a + 1] - pts[a])
                        v = vals[a] * (1 - w) + vals[a + 1] * w
                        break
            for end, val in ((pts[0], vals[0]), (pts[-1], vals[-1])):
                if abs(g - end) <= 1e-12:
                    v = pick(0.0 if end != g else val, val)
            s += v
        out.append(s * 0.01)
    return out[0] - 1e-6, out[1] + 1e-6


def ap_bounds(rec, prec):
    out = []
    for eps in (1e-12, -1e-12):
        s = 0.0
        for i in range(101):
            s += max([p for r, p in zip(rec, prec) if r >= i / 100 + eps], default=0.0)
        out.append(s / 101)
    return out[0] - 1e-9, out[1] + 1e-9


def total(samples, i):
    return tuple(float(sum(s[k][i] for s in samples)) for k in ("count_r", "sum_r", "count_p", "sum_p"))


def curve_of(samples, n):
    return [prf(*total(samples, i)) for i in range(n)]


def close(a, b, tol):
    return abs(float(a) - float(b)) <= tol


def judge_thresholds(thr, curve, tres, tol=1e-9):
    n = len(thr)
    need(len(tres) == n, lambda: "%d threshold results for %d thresholds" % (len(tres), n))
    for i in range(n):
        r, p, f = curve[i]
        for key, want in (("threshold", thr[i]), ("recall", r), ("precision", p), ("f1", f)):
            need(close(tres[i][key], want, tol), lambda: "threshold result %d: %s is %r, expected %r" % (i, key, tres[i][key], want))


COUNTS = ("count_r", "sum_r", "count_p", "sum_p")


def judge_samples(thr, samples, sres, tol=1e-9, exact=False):
    """Returns the index of the threshold picked for each sample."""
    n = len(thr)
    need([s["name"] for s in sres] == [s["name"] for s in samples], lambda: "sample results are of %r, the samples are %r" % ([s["name"] for s in sres], [s["name"] for s in samples]))
    picked = []
    for s, res in zip(samples, sres):
        rows = [prf(s["count_r"][i], s["sum_r"][i], s["count_p"][i], s["sum_p"][i]) for i in range(n)]
        idx = [i for i in range(n) if close(thr[i], res["threshold"], tol)]
        need(len(idx) >= 1, lambda: "sample %s: threshold %r is none of those evaluated" % (s["name"], res["threshold"]))
        i = idx[0]
        top = max(f for _, _, f in rows)
        need(rows[i][2] >= top - 1e-9, lambda: "sample %s: F1 %r at the reported threshold, %r is best" % (s["name"], rows[i][2], top))
        # thresholds of equal F1: the first of them (judged only where equality does not depend on rounding)
        first = 0 if top == 0 else min(k for k in range(i + 1) if exact and all(s[x][k] == s[x][i] for x in COUNTS) or k == i)
        need(i == first, lambda: "sample %s: threshold %r is reported, %r is the first of those with its F1 %r" % (s["name"], thr[i], thr[first], rows[i][2]))
        for key, want in zip(("recall", "precision", "f1"), rows[i]):
            need(close(res[key], want, tol), lambda: "sample %s: %s is %r, expected %r" % (s["name"], key, res[key], want))
        picked.append(i)
    return picked


def judge_ods(thr, curve, ores, tol=1e-9):
    n = len(thr)
    cands = [(thr[0],) + tuple(curve[0])]
    for i in range(1, n):
        for k in range(101):
            d = k / 100
            mix = lambda a, b: a * d + b * (1 - d)  # noqa: E731
            rr, pp = mix(curve[i][0], curve[i - 1][0]), mix(curve[i][1], curve[i - 1][1])
            cands.append((mix(thr[i], thr[i - 1]), rr, pp, f1(pp, rr)))
    best = max(c[3] for c in cands)
    if best == 0:
        cands = cands[:1]
    need(close(ores["ODS_f1"], best, tol), lambda: "ODS_f1 is %r, expected %r" % (ores["ODS_f1"], best))
    got = [float(ores[k]) for k in KEYS[:4]]
    need(any(c[3] >= best - 1e-9 and all(close(a, b, tol) for a, b in zip(c, got)) for c in cands),
         lambda: "ODS %r is not a best point of the curve (best F1 %r at threshold %r)" % (got, best, max(cands, key=lambda c: c[3])[0]))


def judge_ois(samples, picked, ores, tol=1e-9):
    sums = (float(sum(s[k][i] for s, i in zip(samples, picked))) for k in ("count_r", "sum_r", "count_p", "sum_p"))
    for key, want in zip(("OIS_recall", "OIS_precision", "OIS_f1"), prf(*sums)):
        need(close(ores[key], want, tol), lambda: "%s is %r, expected %r" % (key, ores[key], want))


def judge_areas(curve, ores, tol=1e-9):
    rec, prec = [c[0] for c in curve], [c[1] for c in curve]
    lo, hi = area_bounds(rec, prec)
    need(lo - tol <= ores["AUC"] <= hi + tol, lambda: "AUC is %r, expected %r" % (ores["AUC"], (lo, hi)))
    lo, hi = ap_bounds(rec, prec)
    need(lo - tol <= ores["AP"] <= hi + tol, lambda: "AP is %r, expected %r" % (ores["AP"], (lo, hi)))


def judge_overall(thr, samples, picked, ores, tol=1e-9):
    curve = curve_of(samples, len(thr))
    need(set(ores) >= set(KEYS), lambda: "overall results are %r" % sorted(ores))
    if picked is not None:
        judge_ois(samples, picked, ores, tol)
    judge_ods(thr, curve, ores, tol)
    judge_areas(curve, ores, tol)


# files -------------------------------------------------------------------
def numbers(text):
    return [float(x) for x in text.split()]


def read_rows(path):
    """Sample rows: name, then four numbers."""
    out = []
    with open(path, encoding="utf-8") as f:
        for line in f.read().split("\n"):
            if not line.strip():
                continue
            parts = line.rstrip().rsplit(None, 4)
            need(len(parts) == 5, lambda: "%s: line %r" % (path, line))
            out.append(dict(name=parts[0], **dict(zip(("threshold", "recall", "precision", "f1"), map(float, parts[1:])))))
    return out


def read_thr(path):
    out = []
    with open(path) as f:
        for line in f:
            if line.strip():
                v = numbers(line)
                need(len(v) == 4, lambda: "%s: line %r" % (path, line))
                out.append(dict(zip(("threshold", "recall", "precision", "f1"), v)))
    return out


def read_overall(path):
    with open(path) as f:
        v = numbers(f.read())
    need(len(v) == 9, lambda: "%s holds %d values" % (path, len(v)))
    return dict(zip(KEYS, v))


def judge_dir(d, thr, samples, tol=1.1e-6):
    """The three files of one evaluation."""
    for f in ("eval_bdry_img.txt", "eval_bdry_thr.txt", "eval_bdry.txt"):
        need(os.path.isfile(os.path.join(d, f)), lambda: "%s was not written to %s" % (f, d))
    picked = judge_samples(thr, samples, read_rows(os.path.join(d, "eval_bdry_img.txt")), tol)
    judge_thresholds(thr, curve_of(samples, len(thr)), read_thr(os.path.join(d, "eval_bdry_thr.txt")), tol)
    ov = read_overall(os.path.join(d, "eval_bdry.txt"))
    judge_overall(thr, samples, picked, ov, tol)
    return picked, ov
