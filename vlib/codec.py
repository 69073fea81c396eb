"""Cases as JSON (replay files) and content hashes."""
import base64
import hashlib
import json

import numpy as np


def enc(x):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            raise TypeError("object array in a case")
        order = "F" if (x.ndim > 1 and x.flags.f_contiguous and not x.flags.c_contiguous) else "C"
        return {"__nd__": str(x.dtype), "shape": list(x.shape), "order": order, "data": np.asarray(x, order="C").ravel().tolist()}
    if isinstance(x, (np.bool_, np.integer, np.floating)):
        return {"__np__": str(x.dtype), "v": x.item()}
    if isinstance(x, tuple):
        return {"__tuple__": [enc(v) for v in x]}
    if isinstance(x, list):
        return [enc(v) for v in x]
    if isinstance(x, dict):
        if all(isinstance(k, str) and not k.startswith("__") for k in x):
            return {k: enc(v) for k, v in x.items()}
        return {"__map__": [[enc(k), enc(v)] for k, v in x.items()]}
    if isinstance(x, (bytes, bytearray)):
        return {"__b64__": base64.b64encode(bytes(x)).decode()}
    if isinstance(x, complex):
        return {"__complex__": [x.real, x.imag]}
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    raise TypeError("cannot encode %r" % type(x))


def dec(x):
    if isinstance(x, list):
        return [dec(v) for v in x]
    if isinstance(x, dict):
        if "__nd__" in x:
            a = np.array(x["data"], dtype=x["__nd__"]).reshape(x["shape"])
            return np.asfortranarray(a) if x.get("order") == "F" else a
        if "__np__" in x:
            return np.dtype(x["__np__"]).type(x["v"])
        if "__tuple__" in x:
            return tuple(dec(v) for v in x["__tuple__"])
        if "__map__" in x:
            return {dec(k): dec(v) for k, v in x["__map__"]}
        if "__b64__" in x:
            return base64.b64decode(x["__b64__"])
        if "__complex__" in x:
            return complex(*x["__complex__"])
        return {k: dec(v) for k, v in x.items()}
    return x


def _h(h, x):
    if isinstance(x, np.ndarray):
        h.update(b"A%s%r" % (str(x.dtype).encode(), x.shape))
        h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, (list, tuple)):
        h.update(b"L%d" % len(x))
        for v in x:
            _h(h, v)
    elif isinstance(x, dict):
        h.update(b"D%d" % len(x))
        for k, v in x.items():
            _h(h, k)
            _h(h, v)
    else:
        h.update(repr(x).encode() + b";")


def digest(x):
    h = hashlib.blake2b(digest_size=10)
    _h(h, x)
    return h.hexdigest()


def dumps(x):
    return json.dumps(enc(x))


def loads(s):
    return dec(json.loads(s))


def short(x, limit=600):
    """A readable form of a case for the evidence file."""

    def f(v):
        if isinstance(v, np.ndarray):
            if v.ndim == 2 and v.size and v.size <= 400 and (v.dtype == bool or (v.dtype.kind in "iu" and 0 <= v.min() and v.max() <= 9)):
                return "%s%r " % (v.dtype, v.shape) + "/".join("".join(str(int(c)) for c in row) for row in v)
            if v.size <= 40:
                return "%s%r %s" % (v.dtype, v.shape, np.array2string(v.ravel(), separator=",", max_line_width=10**6, precision=4))
            return "%s%r nonzero=%d distinct=%d" % (v.dtype, v.shape, np.count_nonzero(v), len(np.unique(v)))
        if isinstance(v, dict):
            return {str(k): f(w) for k, w in v.items()}
        if isinstance(v, (list, tuple)):
            return [f(w) for w in v[:12]] + (["... %d in all" % len(v)] if len(v) > 12 else [])
        if isinstance(v, (np.generic,)):
            return v.item()
        if isinstance(v, bytes):
            return repr(v[:60])
        return v

    s = json.dumps(f(x), default=repr)
    return s if len(s) <= limit else s[:limit] + "..."
