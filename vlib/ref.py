"""Reference implementations, written from the definitions."""
import math

import numpy as np


# ---------------------------------------------------------------- matching

def tol_px(shape, max_dist):
    return max_dist * math.sqrt(shape[0] ** 2 + shape[1] ** 2)


# images and fractions of the diagonal whose product is exactly 5 pixels, which (3,4) and (5,0) apart are, too
EXACT = [(6, 8, 0.5), (8, 6, 0.5), (12, 16, 0.25), (16, 12, 0.25), (24, 32, 0.125)]


def exact(shape, max_dist):
    """Is the tolerance free of rounding, whatever the order of operations?"""
    diag = math.sqrt(shape[0] ** 2 + shape[1] ** 2)
    return diag == int(diag) and max_dist in (0.5, 0.25, 0.125)


def tol_ambiguous(d):
    """Is some squared pixel distance within rounding of the tolerance?"""
    d2 = d * d
    k = round(d2)
    return abs(d2 - k) <= 1e-9 * max(1.0, d2) and d2 > 0.5


def pairs_within(a, b, d):
    """(nodes of a, nodes of b, distance matrix with inf outside the tolerance)"""
    pa = np.argwhere(a)
    pb = np.argwhere(b)
    if len(pa) == 0 or len(pb) == 0:
        return pa, pb, np.full((len(pa), len(pb)), np.inf)
    d2 = ((pa[:, None, :] - pb[None, :, :]) ** 2).sum(-1)
    dist = np.sqrt(d2)
    dist[d2 > d * d] = np.inf
    return pa, pb, dist


def max_matching_from(dist):
    from scipy.sparse import csr_matrix
    from scipy.sparse.csgraph import maximum_bipartite_matching

    if dist.size == 0:
        return 0
    ok = np.isfinite(dist)
    if not ok.any():
        return 0
    return int((maximum_bipartite_matching(csr_matrix(ok.astype(np.int8)), perm_type="column") >= 0).sum())


def max_matching(a, b, d):
    """Size of a largest one-to-one matching of pixels at most d apart."""
    a = np.asarray(a) != 0
    b = np.asarray(b) != 0
    from scipy.sparse import coo_matrix
    from scipy.sparse.csgraph import maximum_bipartite_matching

    h, w = a.shape
    r = min(int(math.ceil(d)), max(h, w))
    ida = np.full((h, w), -1)
    ida[a] = np.arange(a.sum())
    idb = np.full((h, w), -1)
    idb[b] = np.arange(b.sum())
    ii, jj = [], []
    for dy in range(-r, r + 1):
        for dx in range(-r, r + 1):
            if dy * dy + dx * dx > d * d:
                continue
            ys, ye = max(0, -dy), min(h, h - dy)
            xs, xe = max(0, -dx), min(w, w - dx)
            if ye <= ys or xe <= xs:
                continue
            A = ida[ys:ye, xs:xe]
            B = idb[ys + dy:ye + dy, xs + dx:xe + dx]
            m = (A >= 0) & (B >= 0)
            ii.append(A[m])
            jj.append(B[m])
    if not ii:
        return 0, 0, 0
    ii = np.concatenate(ii)
    jj = np.concatenate(jj)
    n1, n2 = len(np.unique(ii)), len(np.unique(jj))
    if len(ii) == 0:
        return 0, 0, 0
    g = coo_matrix((np.ones(len(ii), np.int8), (ii, jj)), shape=(int(a.sum()), int(b.sum()))).tocsr()
    k = int((maximum_bipartite_matching(g, perm_type="column") >= 0).sum())
    return k, n1, n2


def min_cost_at_max(dist):
    """(cardinality, least sum of rint(100*distance)) of the best matchings."""
    from scipy.optimize import linear_sum_assignment

    n, m = dist.shape
    if n == 0 or m == 0 or not np.isfinite(dist).any():
        return 0, 0
    fin = np.isfinite(dist)
    c = np.where(fin, np.rint(np.where(fin, dist, 0) * 100), 0)
    big = c.max() * (min(n, m) + 1) + 1.0
    cost = np.where(fin, c - big, 0.0)
    ri, ci = linear_sum_assignment(cost)
    sel = fin[ri, ci]
    return int(sel.sum()), int(c[ri, ci][sel].sum())


def dist_to(m, cap=None):
    """Euclidean distance of every pixel to the nearest set pixel of m (inf if there is none, or none up to cap)."""
    m = np.asarray(m) != 0
    h, w = m.shape
    if cap is not None and (2 * cap + 1) ** 2 < 4 * m.sum() + 16:
        r = min(int(cap), max(h, w))
        out = np.full((h, w), np.inf)
        p = np.pad(m, r)
        for dy in range(-r, r + 1):
            for dx in range(-r, r + 1):
                d = math.sqrt(dy * dy + dx * dx)
                if d <= cap:
                    out[p[r + dy:r + dy + h, r + dx:r + dx + w] & (out > d)] = d
        return out
    pts = np.argwhere(m)
    if len(pts) == 0:
        return np.full((h, w), np.inf)
    if len(pts) * m.size > 2 * 10**7:
        from scipy.ndimage import distance_transform_edt

        return distance_transform_edt(~m)
    yy, xx = np.mgrid[:h, :w]
    out = np.full((h, w), np.inf)
    for i in range(0, len(pts), 256):
        p = pts[i:i + 256]
        d2 = (yy[..., None] - p[:, 0]) ** 2 + (xx[..., None] - p[:, 1]) ** 2
        out = np.minimum(out, d2.min(-1))
    return np.sqrt(out)


# ---------------------------------------------------------------- thinning

def _neigh(x):
    p = np.pad(x, 1)
    E, NE, N, NW = p[1:-1, 2:], p[:-2, 2:], p[:-2, 1:-1], p[:-2, :-2]
    W, SW, S, SE = p[1:-1, :-2], p[2:, :-2], p[2:, 1:-1], p[2:, 2:]
    return E, NE, N, NW, W, SW, S, SE


def guo_hall_sub(x, second):
    x1, x2, x3, x4, x5, x6, x7, x8 = _neigh(x)
    xs = [x1, x2, x3, x4, x5, x6, x7, x8, x1]
    crossings = sum((~xs[k] & (xs[k + 1] | xs[k + 2])).astype(int) for k in (0, 2, 4, 6))
    n1 = (x1 | x2).astype(int) + (x3 | x4) + (x5 | x6) + (x7 | x8)
    n2 = (x2 | x3).astype(int) + (x4 | x5) + (x6 | x7) + (x8 | x1)
    m = np.minimum(n1, n2)
    if not second:
        g3 = ~((x2 | x3 | ~x8) & x1)
    else:
        g3 = ~((x6 | x7 | ~x4) & x5)
    return x & ~((crossings == 1) & (m >= 2) & (m <= 3) & g3)


def thin(x, max_iter=None):
    x = np.asarray(x) != 0
    n = 0
    while max_iter is None or n < max_iter:
        y = guo_hall_sub(guo_hall_sub(x, False), True)
        if (y == x).all():
            break
        x = y
        n += 1
    return x


# ---------------------------------------------------------------- NMS

def bilinear(I, y, x):
    """I at (y, x), clamped; arrays of positions."""
    h, w = I.shape
    x = np.clip(x, 0, w - 1.001) if w > 1 else np.zeros_like(x)
    y = np.clip(y, 0, h - 1.001) if h > 1 else np.zeros_like(y)
    x0 = np.floor(x).astype(int)
    y0 = np.floor(y).astype(int)
    x1 = np.minimum(x0 + 1, w - 1)
    y1 = np.minimum(y0 + 1, h - 1)
    fx, fy = x - x0, y - y0
    return I[y0, x0] * (1 - fx) * (1 - fy) + I[y0, x1] * fx * (1 - fy) + I[y1, x0] * (1 - fx) * fy + I[y1, x1] * fx * fy


def nms(edge, ori, r, s, m):
    """(result, ambiguous pixels)"""
    edge = np.asarray(edge, np.float64)
    ori = np.asarray(ori, np.float64)
    h, w = edge.shape
    yy, xx = np.mgrid[:h, :w].astype(float)
    m = float(np.float32(m))
    kill = np.zeros((h, w), bool)
    amb = np.zeros((h, w), bool)
    for d in range(-r, r + 1):
        if d == 0:
            continue
        v = bilinear(edge, yy + d * np.sin(ori), xx + d * np.cos(ori))
        diff = v - edge * m
        eps = 1e-6 * (np.abs(v) + np.abs(edge * m)) + 1e-300
        kill |= diff > eps
        amb |= np.abs(diff) <= eps
    out = np.where(kill & (edge != 0), 0, edge)
    amb &= ~kill & (edge != 0)
    s = min(s, w // 2, h // 2)
    fade = np.ones((h, w))
    for k in range(max(s, 0)):
        f = k / s
        fade[:, k] *= f
        fade[:, w - 1 - k] *= f
        fade[k, :] *= f
        fade[h - 1 - k, :] *= f
    return out * fade, amb


# ---------------------------------------------------------------- class edges

def cv_dist(quality):
    """OpenCV's distance to the nearest set pixel with the given mask size (0: exact)."""
    import cv2

    return lambda m, radius: cv2.distanceTransform((~m).astype(np.uint8), cv2.DIST_L2, quality)


def class_edge(m, ignore, radius, internal_only=False, dist=None):
    """Pixels within the radius of the boundary of class m; ignored pixels count as inside."""
    m = np.asarray(m) != 0
    inside = m | (np.asarray(ignore) != 0)
    dist = dist or dist_to
    d = np.where(inside, dist(~inside, radius), 0.0)
    if not internal_only:
        d = d + np.where(~m, dist(m, radius), 0.0)
    return (d > 0) & (d <= radius)


def class_edges(onehot, ignore_ids, radius, thin_result=False, internal_only=False, inst=None, inst_labels=(), dist=None):
    onehot = np.asarray(onehot) != 0
    ign = np.zeros(onehot.shape[1:], bool)
    for i in ignore_ids:
        ign |= onehot[i]
    out = np.zeros(onehot.shape, bool)
    for c in range(len(onehot)):
        if c in ignore_ids or not onehot[c].any():
            continue
        e = class_edge(onehot[c], ign, radius, internal_only, dist)
        if inst is not None:
            for iid in np.unique(inst):
                if iid >= min(inst_labels) * 1000 and iid // 1000 == c:
                    e = e | class_edge(inst == iid, ign, radius, internal_only, dist)
        out[c] = thin(e) if thin_result else e
    return out


def resize_nearest(a, w, h):
    from PIL import Image

    a = np.asarray(a)
    # Pillow places ties differently in 16-bit images
    dt = np.uint16 if a.dtype == np.uint16 else np.int32
    rows, cols = np.arange(a.shape[0], dtype=dt), np.arange(a.shape[1], dtype=dt)
    # rows and columns are chosen independently of each other
    rows = np.array(Image.fromarray(np.ascontiguousarray(np.broadcast_to(rows[:, None], a.shape[:2]))).resize((w, h), Image.Resampling.NEAREST))
    cols = np.array(Image.fromarray(np.ascontiguousarray(np.broadcast_to(cols[None], a.shape[:2]))).resize((w, h), Image.Resampling.NEAREST))
    return a[rows, cols]
