"""C10: threshold specifications mean the same everywhere."""
import math

import numpy as np
from hypothesis import strategies as st

from pyEdgeEval.common.binary_label.calculate_metrics import calculate_metrics as calc_binary
from pyEdgeEval.common.multi_label.calculate_metrics import calculate_metrics as calc_multi
from pyEdgeEval.common.utils import check_thresholds
from vlib import datasets as ds
from vlib.harness import Sub

RULE = ("integers 1-120, floats, lists and arrays of several types (unsorted, repeated, out of range), and rejected values; for the "
        "routines the same sample is evaluated with the specification and with its explicit values; non-trivial: at least two "
        "thresholds, or a rejected value")
ASSUMPTIONS = []


@st.composite
def valid_spec(draw, nmax=120, ints=None):
    k = draw(st.sampled_from(["int", "float", "list", "array", "list"]))
    if k == "int":
        return draw(st.integers(1, nmax) if ints is None else st.sampled_from(ints))
    fl = st.one_of(st.floats(0, 1), st.floats(-2, 3), st.integers(0, 255).map(lambda v: v / 255))
    if k == "float":
        return draw(fl)
    v = draw(st.lists(fl, min_size=1, max_size=min(12, nmax)))
    if k == "list":
        return draw(st.sampled_from([v, [0, 1], [1], v + v]))
    return np.array(v, dtype=draw(st.sampled_from(["float64", "float32"])))


@st.composite
def bad_spec(draw):
    return draw(st.sampled_from(["0.5", "10", "", None, {}, {"a": 1}, [[0.1, 0.2]], np.zeros((2, 2)), np.zeros((1, 1, 1)), np.array(0.5), [[0.5]], b"9", "[0.5]"]))


def meaning(spec):
    if isinstance(spec, int):
        return [(i + 1) / (spec + 1) for i in range(spec)]
    if isinstance(spec, float):
        return [spec]
    return [float(v) for v in spec]


def check_spec(case, t):
    spec = case["spec"]
    keep = spec.copy() if isinstance(spec, (np.ndarray, list)) else spec
    out = t.call(check_thresholds, spec)
    want = meaning(spec)
    t.check(isinstance(out, np.ndarray) and out.ndim == 1, "the result is no 1-D array")
    t.check(len(out) == len(want), lambda: "%d thresholds, expected %d" % (len(out), len(want)))
    for i, (a, b) in enumerate(zip(out, want)):
        t.check(abs(float(a) - b) <= 1e-12, lambda: "threshold %d is %r, expected %r" % (i, a, b))
    if isinstance(spec, (list, np.ndarray)):
        t.check(all(float(a) == b for a, b in zip(out, want)), "explicit values changed")
        t.check(np.array_equal(np.asarray(spec), np.asarray(keep)), "the specification was modified")
    n = len(want)
    for calc in (calc_binary, calc_multi):
        _s, tres, _o = t.call(calc, counts, spec, [{"name": "x", "n": n}], nproc=1)
        got = [float(r["threshold"]) for r in tres]
        t.check(len(got) == n and all(abs(a - b) <= 1e-12 for a, b in zip(got, want)), lambda: "threshold results %r, expected %r" % (got, want))
    t.nontrivial(n > 1)
    t.label(type(spec).__name__)


def counts(sample):
    n = sample["n"]
    return np.ones(n), np.full(n, 2.0), np.ones(n), np.full(n, 3.0)


def check_bad(case, t):
    t.raises(ValueError, check_thresholds, case["spec"])
    t.nontrivial()


# k / (n + 1) is never v / 255: the last bit of the threshold does not decide
TIE_FREE = [1, 3, 6, 7, 10, 12]
ROUTINES = ["bsds", "cityscapes", "sbd", "otf"]


@st.composite
def routine_case(draw):
    kind = draw(st.sampled_from(ROUTINES))
    return {"kind": kind, "sample": draw(ds.sample_for(kind)), "spec": draw(valid_spec(9, TIE_FREE)), "bad": draw(st.sampled_from(["x", "0.5", None, {}]))}


def check_routine(case, t):
    kind = case["kind"]
    fn, kw = ds.write_sample(kind, case["sample"], t.tmp())
    spec = case["spec"]
    want = np.array(meaning(spec))
    got = [np.asarray(x, float) for x in t.call(fn, thresholds=spec, **kw)]
    ref = [np.asarray(x, float) for x in t.call(fn, thresholds=want, **kw)]
    for a, b, n in zip(got, ref, ("count_r", "sum_r", "count_p", "sum_p")):
        t.check(a.shape == want.shape, lambda: "%s: %s has shape %r for %d thresholds" % (kind, n, a.shape, len(want)))
        if n.startswith("sum"):
            t.eq_array(a, b, "%s with the specification against its values: %s" % (kind, n))
        elif kind != "bsds":  # which pixels the matching picks differs between calls, and so does the union over annotations
            t.eq_array(a, b, "%s with the specification against its values: %s" % (kind, n), exact=False, tol=max(2, 0.05 * b.max()))
    for i in range(len(want)):  # one at a time
        one = [np.asarray(x, float) for x in t.call(fn, thresholds=[float(want[i])], **kw)]
        t.check(one[3][0] == got[3][i] and one[1][0] == got[1][i], lambda: "%s: threshold %r evaluated alone gives sum_p %r, among others %r" % (kind, want[i], one[3][0], got[3][i]))
    t.raises(ValueError, fn, thresholds=case["bad"], **kw)
    t.nontrivial(len(want) > 1 and len(set(got[3])) > 1)
    t.label(kind)


SUBS = [
    Sub("spec", lambda: st.fixed_dictionaries({"spec": valid_spec()}), check_spec, 6000, 100000),
    Sub("rejected", lambda: st.fixed_dictionaries({"spec": bad_spec()}), check_bad, 200, 400),
    Sub("routines", routine_case, check_routine, 1600, 30000),
]
