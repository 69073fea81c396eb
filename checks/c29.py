"""C29: dataset file discovery finds exactly the matching files."""
import os
from pathlib import Path

import numpy as np
from hypothesis import strategies as st
from scipy.io import savemat
from scipy.sparse import csc_matrix

from pyEdgeEval.utils import path as P
from pyEdgeEval.utils.mat_utils import loadmat, sparse2numpy
from vlib.harness import Sub

RULE = ("directory trees up to 4 levels deep with up to 16 entries whose names are built from confusable fragments (hidden, mixed case, suffix "
        "inside the name, no extension, directories named like files), all suffix forms and options, several spellings of the directory; histories of "
        "up to 25 mkdir/check/symlink operations against a model; .mat files with sparse and dense variables; non-trivial: a scan in which at "
        "least one file matches and one does not, a history with at least one existing and one missing target")
ASSUMPTIONS = ["symbolic links to files count as files and linked directories are entered", "directory entries whose name is hidden are entered when recursive (only hidden files are skipped)"]

NAMES = ["a.png", "b.PNG", "c_edge.png", "a.bin", "a.bin.png", ".hid.png", ".png", "png", "x.jpg", "X.JPG", "a_gtFine_labelIds.png", "A_gtFine_LabelIds.png",
         "a_gtFine_labelTrainIds.png", "d", "e.png", ".git", "sub", "Sub", "é.png", "a b.png", "n.tar.gz", "m.mat"]
SUFFIX = [None, None, ".png", ".PNG", "png", ".bin", "_gtFine_labelIds.png", "labelIds.png", "", (".png", ".bin"), (".PNG", ".JPG"), (".mat",), (), "sub/a.png", "d/a.png", ".gz",
          "a.png", "x", (".jpg", "d"), (".tif", ".bmp", ".jpg", ".bin", ".gif", ".png"), (".1", ".2", ".3", ".4", ".5", ".6", ".7", ".8", ".mat")]


LINKED = ["a.png", ".hid.png", "x.JPG", "n_gtFine_labelIds.png"]


@st.composite
def tree(draw):
    """[[relative folder...], name, kind] entries; folders first."""
    dirs = [[]]
    out = []
    used = set()
    for _ in range(draw(st.integers(0, 16))):
        base = draw(st.sampled_from(dirs))
        name = draw(st.sampled_from(NAMES))
        kind = draw(st.sampled_from(["file", "file", "file", "dir", "link", "linkdir"]))
        key = "/".join(base + [name])
        if key in used:
            continue
        used.add(key)
        if kind == "dir":
            if len(base) >= 3:
                continue
            dirs.append(base + [name])
        out.append([base, name, kind])
        if kind == "linkdir":  # what it leads to
            out += [[base + [name], n, "there"] for n in sorted(LINKED)]
    return out


@st.composite
def scan_case(draw):
    sfx = draw(st.sampled_from(SUFFIX))
    return {"tree": draw(tree()), "suffix": list(sfx) if isinstance(sfx, tuple) else sfx, "tuple": isinstance(sfx, tuple), "recursive": draw(st.booleans()),
            "cs": draw(st.sampled_from([True, True, False])), "spell": draw(st.sampled_from(["str", "str", "Path", "slash", "relative", "dot", "updown"])),
            "twice": draw(st.booleans())}


def build(root, entries):
    for base, name, kind in entries:
        p = os.path.join(root, *base, name)
        if kind == "dir":
            os.mkdir(p)
        elif kind == "linkdir":
            target = os.path.join(os.path.dirname(root), "elsewhere")
            if not os.path.exists(target):
                os.mkdir(target)
                for n in LINKED:
                    open(os.path.join(target, n), "w").close()
            os.symlink(target, p)
        elif kind == "there":
            pass
        elif kind == "link":
            target = os.path.join(os.path.dirname(root), "outside")
            if not os.path.exists(target):
                open(target, "w").close()
            os.symlink(target, p)
        else:
            open(p, "w").close()


def expected(entries, suffix, recursive, cs):
    out = []
    for base, name, kind in entries:
        if kind in ("dir", "linkdir") or name.startswith(".") or (base and not recursive):
            continue
        rel = "/".join(base + [name])
        if suffix is not None:
            forms = [suffix] if isinstance(suffix, str) else list(suffix)
            r = rel
            if not cs:
                forms = [f.lower() for f in forms]
                r = r.lower()
            if not any(len(f) <= len(r) and r[len(r) - len(f):] == f for f in forms):
                continue
        out.append(rel)
    return sorted(out)


def check_scan(case, t):
    root = os.path.join(t.tmp(), "Root.png")
    os.mkdir(root)
    build(root, case["tree"])
    suffix = tuple(case["suffix"]) if case["tuple"] else case["suffix"]
    spell = case["spell"]
    arg = root
    old = os.getcwd()
    try:
        if spell == "Path":
            arg = Path(root)
        elif spell == "slash":
            arg = root + "/"
        elif spell == "relative":
            os.chdir(os.path.dirname(root))
            arg = "Root.png"
        elif spell == "dot":
            os.chdir(root)
            arg = "."
        elif spell == "updown":
            arg = os.path.join(root, "..", "Root.png")
        kw = {}
        if case["suffix"] is not None or case["twice"]:
            kw["suffix"] = suffix
        if case["recursive"] or case["twice"]:
            kw["recursive"] = case["recursive"]
        if not case["cs"] or case["twice"]:
            kw["case_sensitive"] = case["cs"]
        it = t.call(P.scandir, arg, **kw)
        t.check(iter(it) is it, "scandir did not return an iterator")
        got = t.call(lambda: list(it))
    finally:
        os.chdir(old)
    want = expected(case["tree"], suffix, case["recursive"], case["cs"])
    t.check(sorted(got) == want, lambda: "scandir yielded %r, expected %r" % (sorted(got), want))
    everything = expected(case["tree"], None, True, True)
    t.nontrivial(0 < len(want) < len([e for e in case["tree"] if e[2] not in ("dir", "linkdir")]))
    t.label("matches in folders", any("/" in r for r in want))
    t.label("hidden file present", any(e[1].startswith(".") and e[2] != "dir" for e in case["tree"]))
    t.label("file inside a hidden folder", any(b.startswith(".") for r in everything for b in r.split("/")[:-1]))
    t.label("case decides", want != expected(case["tree"], suffix, case["recursive"], not case["cs"]))


@st.composite
def reject_case(draw):
    return {"what": draw(st.sampled_from(["dir", "suffix"])), "v": draw(st.sampled_from([["int", 3], ["list", [".png"]], ["bytes", "x"], ["none", None], ["set", [".png"]]])),
            "recursive": draw(st.booleans()), "cs": draw(st.booleans())}


def check_reject(case, t):
    kind, v = case["v"]
    v = {"int": lambda: v, "list": lambda: list(v), "bytes": lambda: b"x", "none": lambda: None, "set": lambda: set(v)}[kind]()
    d = t.tmp()
    if case["what"] == "dir":
        t.raises(TypeError, lambda: list(P.scandir(v, ".png", case["recursive"], case["cs"])))
    else:
        if v is None:
            v = 4.5
        t.raises(TypeError, lambda: list(P.scandir(d, v, case["recursive"], case["cs"])))
    t.nontrivial()


TARGETS = ["a", "b", "$HOME", "$HOME/y", "a/x", "a/x/y", "f.txt", "a/f.txt", "link", "link2", "b/é", "c d"]


@st.composite
def ops_case(draw):
    n = draw(st.integers(1, 25))
    return {"ops": [[draw(st.sampled_from(["mkdir", "mkdir", "check", "check", "link", "link", "nolink", "write", "home"])), draw(st.sampled_from(TARGETS)),
                     draw(st.sampled_from(TARGETS))] for _ in range(n)]}


MODES = [None, 0o700, 0o755, 0o750]
UMASK = os.umask(0o022)
os.umask(UMASK)


def check_ops(case, t):
    root = os.path.realpath(t.tmp())
    # model: path -> "dir" | "file" | ("link", target)
    model = {"": "dir"}

    def kind(p):
        v = model.get(p)
        if isinstance(v, tuple):
            return model.get(v[1]) if not isinstance(model.get(v[1]), tuple) else "?"
        return v

    old_home = os.environ.get("HOME")
    hit = miss = 0
    try:
        os.environ["HOME"] = root
        for op, a, b in case["ops"]:
            parents = [a.rsplit("/", i)[0] for i in range(1, a.count("/") + 1)]
            full = os.path.join(root, a)
            if any(isinstance(model.get(x), tuple) for x in parents + [a]) and op != "link" and op != "check" and op != "nolink":
                continue
            if op in ("mkdir", "home"):
                arg = full if op == "mkdir" else "~/" + a
                if any(model.get(x) == "file" for x in parents + [a]):
                    t.raises(OSError, P.mkdir_or_exist, arg)
                    miss += 1
                    continue
                hit += model.get(a) == "dir"
                mode = MODES[len(b) % len(MODES)]
                made = not os.path.isdir(full)
                t.call(P.mkdir_or_exist, arg, *([] if mode is None else [mode]))
                got = os.stat(full).st_mode & 0o777
                t.check(not made or got == (0o777 if mode is None else mode) & ~UMASK, lambda: "mkdir_or_exist created %s with mode %o" % (a, got))
                for x in parents + [a]:
                    model[x] = "dir"
                t.check(os.path.isdir(full), "mkdir_or_exist did not create %s" % a)
            elif op == "write":
                if all(model.get(x) == "dir" for x in parents) and model.get(a) in (None, "file"):
                    with open(full, "w") as f:
                        f.write(a)
                    model[a] = "file"
            elif op == "check":
                k = kind(a)
                if k == "?" or any(isinstance(model.get(x), tuple) for x in parents):
                    continue
                if k == "file":
                    hit += 1
                    t.call(P.check_file_exist, full)
                else:
                    miss += 1
                    t.raises(FileNotFoundError, P.check_file_exist, full)
                    t.raises(FileNotFoundError, P.check_file_exist, full, msg_tmpl="no {}")
            else:
                if a == b or not all(model.get(x) == "dir" for x in parents):
                    continue
                src = os.path.join(root, b)
                cur = model.get(a)
                if op == "nolink":
                    if cur is not None:
                        t.raises(FileExistsError, P.symlink, src, full, overwrite=False)
                    else:
                        t.call(P.symlink, src, full, overwrite=False)
                        model[a] = ("link", b)
                elif cur == "dir":
                    t.raises(OSError, P.symlink, src, full)
                    t.check(os.path.isdir(full) and not os.path.islink(full), "symlink destroyed a directory")
                else:
                    hit += cur is not None
                    t.call(P.symlink, src, full)
                    model[a] = ("link", b)
                    t.check(os.path.islink(full) and os.readlink(full) == src, "the link does not lead to its source")
            # nothing else changed
        for p, v in model.items():
            f = os.path.join(root, p) if p else root
            ok = (os.path.islink(f) and os.readlink(f) == os.path.join(root, v[1])) if isinstance(v, tuple) else (
                os.path.isdir(f) and not os.path.islink(f) if v == "dir" else os.path.isfile(f) and not os.path.islink(f))
            t.check(ok, "%s is no longer what it was: %r" % (p, v))
        seen = set()
        for d, ds, fs in os.walk(root):
            for n in ds + fs:
                seen.add(os.path.relpath(os.path.join(d, n), root))
        t.check(seen == set(model) - {""}, lambda: "unexpected entries %r" % sorted(seen ^ (set(model) - {""})))
        t.call(P.mkdir_or_exist, "")
    finally:
        if old_home is None:
            os.environ.pop("HOME", None)
        else:
            os.environ["HOME"] = old_home
    t.nontrivial(hit > 0 and miss > 0)


@st.composite
def mat_case(draw):
    vs = []
    for i in range(draw(st.integers(1, 3))):
        h, w = draw(st.integers(1, 6)), draw(st.integers(1, 6))
        b = np.frombuffer(draw(st.binary(min_size=h * w, max_size=h * w)), np.uint8).reshape(h, w)
        vs.append(["v%d" % i, draw(st.sampled_from(["uint8", "float64", "int32", "sparse", "bool", "sparse-bool", "text"])), b.copy()])
    return {"vars": vs, "missing": draw(st.booleans()), "compress": draw(st.booleans())}


def check_mat(case, t):
    p = os.path.join(t.tmp(), "m.mat")
    if case["missing"]:
        t.raises((AssertionError, OSError), loadmat, p)
    d = {}
    for n, k, b in case["vars"]:
        b = b * (b % 3 == 0)
        d[n] = (csc_matrix(b.astype(float)) if k == "sparse" else csc_matrix(b > 0) if k == "sparse-bool" else "txt%d" % b.sum() if k == "text" else
                (b > 100) if k == "bool" else b.astype(k))
    savemat(p, d, do_compression=case["compress"])
    got = t.call(loadmat, p)
    for n, k, _b in case["vars"]:
        t.check(n in got, "variable %s is missing" % n)
        if k.startswith("sparse"):
            x = t.call(sparse2numpy, got[n])
            t.eq_array(x, d[n].toarray(), "sparse variable")
        elif k == "text":
            t.check(str(got[n][0]) == d[n], "text variable")
        else:
            t.eq_array(got[n], d[n], "variable %s" % n)
    t.nontrivial(any(k.startswith("sparse") for _, k, _ in case["vars"]))


SUBS = [Sub("scandir", scan_case, check_scan, 4000, 80000), Sub("reject", reject_case, check_reject, 100, 400), Sub("history", ops_case, check_ops, 2000, 40000),
        Sub("mat", mat_case, check_mat, 400, 4000)]
