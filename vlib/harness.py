"""Runs the sub-checks of one property over generated cases. See DESIGN.md."""
import argparse
import hashlib
import importlib
import json
import math
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
NWORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
SHRINK_S = float(os.environ.get("VERIF_SHRINK", "40"))
CASE_TIMEOUT = 100


class Violation(Exception):
    pass


class HarnessError(Exception):
    pass


class Stop(BaseException):
    pass


class Hang(BaseException):
    pass


class Sub:
    """One sub-check: cases from `strategy()` are judged by `check(case, t)`."""

    def __init__(self, name, strategy, check, quick, thorough=None, timeout=CASE_TIMEOUT):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.timeout = timeout


class T:
    """What a check may use: judging, labelling and scratch space."""

    def __init__(self):
        self.is_nontrivial = False
        self.labels = []
        self._tmp = None

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, name, cond=True):
        if cond:
            self.labels.append(name)

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def call(self, fn, *a, **k):
        """Call the code under test on valid input: an exception is a violation."""
        try:
            return fn(*a, **k)
        except Violation:
            raise
        except (MemoryError, ImportError):
            raise
        except Exception as e:
            raise Violation("%s raised %s: %s" % (getattr(fn, "__name__", fn), type(e).__name__, e)) from e
        except SystemExit as e:
            raise Violation("%s exited: %s" % (getattr(fn, "__name__", fn), e)) from e

    def raises(self, exc, fn, *a, **k):
        """The code under test must reject this input with `exc`."""
        try:
            fn(*a, **k)
        except exc:
            return
        except (MemoryError, ImportError):
            raise
        except Exception as e:
            raise Violation("%s raised %s (%s) instead of %s" % (getattr(fn, "__name__", fn), type(e).__name__, e, exc)) from e
        raise Violation("%s accepted an invalid input" % getattr(fn, "__name__", fn))

    def eq_array(self, got, want, what, dtype=None, exact=True, tol=0):
        import numpy as np

        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation("%s: shape %r, expected %r" % (what, got.shape, want.shape))
        if dtype is not None and got.dtype != np.dtype(dtype):
            raise Violation("%s: dtype %s, expected %s" % (what, got.dtype, dtype))
        if exact:
            bad = got != want
            if got.dtype.kind == "f" and want.dtype.kind == "f":
                bad = bad & ~(np.isnan(got) & np.isnan(want))
        else:
            g = got.astype("float64")
            w = want.astype("float64")
            bad = ~((np.abs(g - w) <= tol) | (np.isnan(g) & np.isnan(w)))
        if bad.any():
            i = tuple(int(v) for v in np.argwhere(bad)[0])
            raise Violation("%s: %d of %d elements differ, first at %r: got %r, expected %r"
                            % (what, int(bad.sum()), bad.size, i, got[i].item() if got.ndim else got.item(), want[i].item() if want.ndim else want.item()))

    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="case-")
        return self._tmp

    def clear(self):
        """Empty the scratch space: the next files get the same paths."""
        for e in os.scandir(self.tmp()):
            if e.is_dir(follow_symlinks=False):
                shutil.rmtree(e.path)
            else:
                os.remove(e.path)

    def close(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


def load_prop(prop):
    return importlib.import_module("checks." + prop.lower())


def sub_seed(seed, prop, sub, shard):
    return int.from_bytes(hashlib.sha256(("%s/%s/%s/%s" % (seed, prop, sub, shard)).encode()).digest()[:7], "big")


def _is_env_problem(e):
    import errno

    return isinstance(e, (MemoryError, ImportError, HarnessError)) or (
        isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.EAGAIN))


def judge(sub, case):
    """Returns (T, message or None). Raises only for problems of the harness."""
    t = T()
    try:
        sub.check(case, t)
        return t, None
    except Violation as e:
        msg = str(e)
        c = e.__cause__
        if c is not None:
            tb = traceback.format_exception(type(c), c, c.__traceback__)
            msg += "\n" + "".join(tb)[-1500:]
        return t, msg
    except Exception as e:
        if _is_env_problem(e):
            raise
        return t, "unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    finally:
        t.close()


def judge_forked(sub, case):
    """judge() in a child, so that a crash of native code is an ordinary failure."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            signal.alarm(0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(int(sub.timeout))
            t, msg = judge(sub, case)
            os.write(w, json.dumps([t.is_nontrivial, t.labels, msg]).encode()[:60000])
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        s = os.WTERMSIG(status)
        if s == signal.SIGALRM:
            return T(), "did not terminate within %d s" % sub.timeout
        return T(), "the process died by signal %s" % signal.Signals(s).name
    if os.WEXITSTATUS(status) != 0 or not data:
        raise HarnessError("forked case ended with %d" % os.WEXITSTATUS(status))
    nt, labels, msg = json.loads(data)
    t = T()
    t.is_nontrivial, t.labels = nt, labels
    return t, msg


def setup_worker(build_dir):
    os.environ["MPLBACKEND"] = "Agg"
    sys.dont_write_bytecode = True
    if VT not in sys.path:
        sys.path.append(VT)
    from . import build

    build.install(build_dir)
    try:
        import cv2

        cv2.setNumThreads(0)
    except ImportError:
        pass


def run_sub(sub, n, seed, t_end, cur, isolate, deadline_extra=0):
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, given, settings

    from . import codec

    res = {"sub": sub.name, "evaluations": 0, "invalid": 0, "distinct": [], "labels": {}, "samples": [], "fail": None,
           "harness": None, "stopped": None}
    seen = set()
    st = {"fail_time": None, "best": None, "first": None, "nfails": 0}

    def alarm(_s, _f):
        raise Hang()

    signal.signal(signal.SIGALRM, alarm)

    @hypothesis.seed(seed)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False, verbosity=Verbosity.quiet,
              report_multiple_bugs=False, print_blob=False, suppress_health_check=list(HealthCheck),
              phases=(Phase.generate, Phase.shrink))
    @given(case=sub.strategy())
    def body(case):
        now = time.time()
        if st["fail_time"] is not None:
            if now > st["fail_time"] + SHRINK_S:
                raise Stop("shrink budget")
        elif now > t_end:
            raise Stop("time budget")
        with open(cur, "w") as f:
            f.write(json.dumps({"sub": sub.name, "case": codec.enc(case)}))
        if not isolate:
            signal.alarm(int(sub.timeout))
            t, msg = judge(sub, case)
            signal.alarm(0)
        else:
            t, msg = judge_forked(sub, case)
        if st["fail_time"] is None:
            res["evaluations"] += 1
            for lab in t.labels:
                res["labels"][lab] = res["labels"].get(lab, 0) + 1
            if t.is_nontrivial and msg is None:
                d = codec.digest(case)
                if d not in seen:
                    seen.add(d)
                    if len(res["samples"]) < 3 and (len(seen) % 7 == 3 or len(seen) == 1):
                        res["samples"].append(codec.short(case))
        if msg is not None:
            st["nfails"] += 1
            text = json.dumps({"sub": sub.name, "case": codec.enc(case)})
            rec = {"size": len(text), "text": text, "msg": msg}
            if st["fail_time"] is None:
                st["fail_time"] = time.time()
                st["first"] = rec
            if st["best"] is None or rec["size"] <= st["best"]["size"]:
                st["best"] = rec
            raise Violation(msg)

    try:
        body()
    except Stop as e:
        res["stopped"] = str(e)
    except Hang:
        res["stopped"] = "hang"
        res["hang"] = open(cur).read()
    except Violation:
        pass
    except Exception as e:
        if st["best"] is None:
            res["harness"] = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
    res["distinct"] = sorted(seen)
    if st["best"] is not None:
        res["fail"] = {"best": st["best"], "first": st["first"], "nfails": st["nfails"]}
        res["harness"] = None
    return res


def worker_main(args):
    spec = json.load(open(args.worker))
    setup_worker(spec["build"])
    mod = load_prop(spec["prop"])
    out = []
    subs = [s for s in mod.SUBS if spec["subs"] is None or s.name in spec["subs"]]
    t_end = time.time() + spec["budget"]
    for i, sub in enumerate(subs):
        total = sub.quick if spec["tier"] == "quick" else sub.thorough
        total = int(math.ceil(total * spec["scale"]))
        k, w = spec["shard"], spec["nshards"]
        n = total // w + (1 if (k + i * 3) % w < total % w else 0)
        if n <= 0:
            continue
        left = t_end - time.time()
        sub_end = time.time() + max(3.0, left / (len(subs) - i) * 1.6)
        r = run_sub(sub, n, sub_seed(spec["seed"], spec["prop"], sub.name, k), min(sub_end, max(t_end, time.time() + 3)), spec["cur"], spec["isolate"])
        out.append(r)
        with open(spec["out"] + ".tmp", "w") as f:
            json.dump(out, f)
        os.replace(spec["out"] + ".tmp", spec["out"])
        if r["fail"] or r["harness"] or r["stopped"] == "hang":
            break
    with open(spec["out"] + ".done", "w") as f:
        f.write("done")
    return 0


def replay_worker(args):
    """Judge one saved case in this process: exit 0 holds, 1 violated, 2 error."""
    from . import codec

    spec = json.load(open(args.replay_worker))
    setup_worker(spec["build"])
    mod = load_prop(spec["prop"])
    rec = json.load(open(spec["file"]))
    sub = next(s for s in mod.SUBS if s.name == rec["sub"])
    case = codec.dec(rec["case"])

    def alarm(_s, _f):
        print("did not terminate within %d s" % (2 * sub.timeout), flush=True)
        os._exit(1)

    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(2 * sub.timeout))
    try:
        _t, msg = judge(sub, case)
    except BaseException:
        traceback.print_exc()
        return 2
    if msg is not None:
        print("FAILS: " + msg, flush=True)
        return 1
    return 0


class Runner:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.t0 = time.time()
        from . import build

        self.buildmod = build
        self.flavor = self._flavor()

    def _flavor(self):
        # read without importing the code under test
        src = open(os.path.join(VERIF, "checks", self.prop.lower() + ".py")).read()
        return "asan" if 'FLAVOR = "asan"' in src else "normal"

    def env(self, build_dir):
        env = dict(os.environ)
        env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
                   OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", TMPDIR=self.scratch, PYTHONPATH=VERIF,
                   MPLCONFIGDIR=os.path.join(self.scratch, "mpl"), HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(self.scratch, "hyp"),
                   PYTHONFAULTHANDLER="1", QT_QPA_PLATFORM="offscreen",
                   MALLOC_PERTURB_="90")  # fresh memory is not zero
        env.pop("PYTHONSTARTUP", None)
        if self.flavor == "asan":
            env.update(self.buildmod.asan_env())
            env.pop("PYTHONFAULTHANDLER")
        return env

    def spawn(self, flag, spec, name):
        p = os.path.join(self.scratch, name + ".spec")
        with open(p, "w") as f:
            json.dump(spec, f)
        log = open(os.path.join(self.scratch, name + ".log"), "wb")
        cwd = os.path.join(self.scratch, name + ".cwd")
        os.makedirs(cwd, exist_ok=True)
        return subprocess.Popen([PY, os.path.join(VERIF, "run.py"), flag, p], cwd=cwd, env=self.env(spec["build"]), stdin=subprocess.DEVNULL,
                                stdout=log, stderr=subprocess.STDOUT, start_new_session=True), log.name

    @staticmethod
    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            p.wait(10)
        except subprocess.TimeoutExpired:
            pass

    @staticmethod
    def tail(path, n=2500):
        try:
            with open(path, "rb") as f:
                f.seek(0, 2)
                f.seek(max(0, f.tell() - n))
                return f.read().decode(errors="replace")
        except OSError:
            return ""

    def replay(self, build_dir, file, tries=3):
        """(violated?, text) of a saved case, each try in a fresh process."""
        text = ""
        for i in range(tries):
            p, log = self.spawn("--replay-worker", {"build": build_dir, "prop": self.prop, "file": file}, "replay%d" % i)
            try:
                rc = p.wait(400)
            except subprocess.TimeoutExpired:
                self.kill(p)
                return True, "did not terminate within 400 s"
            self.kill(p)
            text = self.tail(log)
            if rc == 1 or rc < 0 and rc != -9:
                return True, text + ("" if rc == 1 else "\n(died by signal %d)" % -rc)
            if rc not in (0, -9):
                return None, text
        return False, text

    def run(self):
        try:
            return self._run()
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def worker_round(self, build_dir, subs, isolate, budget, nshards, shards, scale):
        procs = {}
        for k in shards:
            name = "w%d%s" % (k, "i" if isolate else "")
            spec = {"build": build_dir, "prop": self.prop, "subs": subs, "tier": self.tier, "seed": self.seed, "shard": k, "nshards": nshards,
                    "budget": budget, "isolate": isolate, "scale": scale, "out": os.path.join(self.scratch, name + ".out"),
                    "cur": os.path.join(self.scratch, name + ".cur")}
            p, log = self.spawn("--worker", spec, name)
            procs[k] = {"p": p, "log": log, "spec": spec, "start": time.time(), "state": None}
        stop_at = None
        while any(v["state"] is None for v in procs.values()):
            time.sleep(0.1)
            for k, v in procs.items():
                if v["state"] is not None:
                    continue
                rc = v["p"].poll()
                if rc is not None:
                    if os.path.exists(v["spec"]["out"] + ".done") and rc == 0:
                        v["state"] = "done"
                        res = json.load(open(v["spec"]["out"])) if os.path.exists(v["spec"]["out"]) else []
                        if any(r["fail"] for r in res) and stop_at is None:
                            stop_at = time.time() + 3
                    else:
                        v["state"] = "died"
                        v["rc"] = rc
                        if stop_at is None and rc not in (2,):
                            stop_at = time.time() + 20
                    self.kill(v["p"])
                    continue
                try:
                    beat = os.path.getmtime(v["spec"]["cur"])
                except OSError:
                    beat = v["start"]
                if time.time() - max(beat, v["start"]) > CASE_TIMEOUT * 2 + 60:
                    v["state"] = "hung"
                    self.kill(v["p"])
                elif stop_at is not None and time.time() > stop_at:
                    v["state"] = "cut"
                    self.kill(v["p"])
        out = []
        for k, v in procs.items():
            try:
                v["res"] = json.load(open(v["spec"]["out"]))
            except (OSError, ValueError):
                v["res"] = []
            out.append(v)
        return out

    def _run(self):
        try:
            build_dir = self.buildmod.build(self.flavor)
        except self.buildmod.BuildError as e:
            print("ERROR: %s" % e)
            return 2
        modsrc = importlib.util.find_spec("checks." + self.prop.lower())
        meta = self._static_meta(modsrc.origin)
        budget = float(os.environ.get("VERIF_BUDGET", meta["budget"] if self.tier == "quick" else meta["budget_thorough"]))
        scale = float(os.environ.get("VERIF_SCALE", "1"))
        subs = os.environ.get("VERIF_SUBS")
        subs = subs.split(",") if subs else None
        violations = []  # (sub, text of the case file, message)
        notes = []
        errors = []

        # saved inputs first
        corpus = os.path.join(VERIF, "corpus", self.prop)
        ncorpus = 0
        if os.path.isdir(corpus):
            for f in sorted(os.listdir(corpus)):
                if f.endswith(".json"):
                    bad, text = self.replay(build_dir, os.path.join(corpus, f), tries=1)
                    ncorpus += 1
                    if bad:
                        violations.append((f, open(os.path.join(corpus, f)).read(), text))
                    elif bad is None:
                        errors.append("saved case %s: %s" % (f, text))
        outs = []
        if not violations and not errors:
            outs = self.worker_round(build_dir, subs, meta["isolate"], budget, NWORKERS, range(NWORKERS), scale)
        results = []
        for v in outs:
            for r in v["res"]:
                results.append(r)
                if r["fail"]:
                    violations.append((r["sub"], r["fail"]["best"]["text"], r["fail"]["best"]["msg"]))
                    if r["fail"]["first"]["text"] != r["fail"]["best"]["text"]:
                        violations.append((r["sub"], r["fail"]["first"]["text"], r["fail"]["first"]["msg"]))
                if r["harness"]:
                    errors.append("%s: %s" % (r["sub"], r["harness"]))
                if r["stopped"]:
                    notes.append("%s stopped: %s" % (r["sub"], r["stopped"]))
                if r.get("hang"):
                    self._suspect(build_dir, r["hang"], violations, notes, "hang")
            # native code may also call exit(): the process then ends in the middle of a case without a traceback
            left = v["state"] == "died" and v["rc"] not in (0, 2) and os.path.exists(v["spec"]["cur"]) and "Traceback (most recent call last)" not in self.tail(v["log"], 6000)
            if v["state"] == "hung" or (v["state"] == "died" and v["rc"] < 0) or left:
                text = open(v["spec"]["cur"]).read() if os.path.exists(v["spec"]["cur"]) else None
                what = "worker hung" if v["state"] == "hung" else "worker died by signal %d" % -v["rc"] if v["rc"] < 0 else "worker was ended with exit status %d during a case" % v["rc"]
                if text is None:
                    errors.append(what + ": " + self.tail(v["log"]))
                    continue
                self._suspect(build_dir, text, violations, notes, what, v, self.tail(v["log"], 6000))
            elif v["state"] == "died":
                errors.append("worker exited with %s: %s" % (v["rc"], self.tail(v["log"])))
        return self._report(build_dir, meta, results, violations, notes, errors, ncorpus)

    def _suspect(self, build_dir, text, violations, notes, what, v=None, log=""):
        """A case after which a worker crashed or hung: confirm, then shrink with a fork per case."""
        f = os.path.join(self.scratch, "suspect.json")
        with open(f, "w") as h:
            h.write(text)
        if any("(crash)" in m for _s, _t, m in violations):
            return
        bad, rtext = self.replay(build_dir, f, tries=2)
        sub = json.loads(text)["sub"]
        if not bad:
            notes.append("%s (not reproduced by its last case): %s" % (what, log[-500:]))
            if ("signal" in what and what.split()[-1] not in ("1", "2", "9", "15")) or "exit status" in what:
                violations.append((sub, text, "(crash) %s; not reproduced in a fresh process\n%s" % (what, log)))
            return
        violations.append((sub, text, "(crash) %s\n%s\n%s" % (what, rtext, log[-1500:])))
        if v is not None and v["state"] == "died":
            outs = self.worker_round(build_dir, [sub], True, 60, NWORKERS, [v["spec"]["shard"]], 1.0)
            for o in outs:
                for r in o["res"]:
                    if r["fail"]:
                        violations.append((r["sub"], r["fail"]["best"]["text"], "(crash) " + r["fail"]["best"]["msg"]))

    @staticmethod
    def _static_meta(path):
        """Constants of the check module, read without importing it (the parent never imports the code under test)."""
        import ast

        meta = {"budget": 100, "budget_thorough": 1500, "isolate": False, "rule": "", "assumptions": []}
        names = {"BUDGET": "budget", "BUDGET_THOROUGH": "budget_thorough", "ISOLATE": "isolate", "RULE": "rule", "ASSUMPTIONS": "assumptions"}
        for node in ast.parse(open(path).read()).body:
            if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and node.targets[0].id in names:
                meta[names[node.targets[0].id]] = ast.literal_eval(node.value)
        return meta

    def _report(self, build_dir, meta, results, violations, notes, errors, ncorpus):
        per = {}
        for r in results:
            d = per.setdefault(r["sub"], {"evaluations": 0, "distinct": set(), "labels": {}, "samples": []})
            d["evaluations"] += r["evaluations"]
            d["distinct"].update(r["distinct"])
            for k, n in r["labels"].items():
                d["labels"][k] = d["labels"].get(k, 0) + n
            d["samples"].extend(r["samples"])
        final = []
        if violations:
            bysub = {}
            for sub, text, msg in violations:
                bysub.setdefault(sub, []).append((len(text), text, msg))
            for sub, lst in bysub.items():
                lst.sort(key=lambda x: x[0])
                pick = None
                for _n, text, msg in lst[:4]:
                    f = os.path.join(self.scratch, "confirm.json")
                    with open(f, "w") as h:
                        h.write(text)
                    bad, rtext = self.replay(build_dir, f, tries=3)
                    if bad:
                        pick = (text, msg, True)
                        break
                if pick is None:
                    pick = (lst[0][1], lst[0][2], False)
                final.append((sub,) + pick)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        nviol = 0
        for sub, text, msg, ok in final:
            rec = json.loads(text)
            rec["property"] = self.prop
            rec["message"] = msg
            rec["seed"] = self.seed
            rec["reproduces_alone"] = ok
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (self.prop, sub.replace("/", "_").replace(".json", "")))
            with open(path, "w") as f:
                json.dump(rec, f)
            from . import codec

            try:
                print("case: " + codec.short(codec.dec(rec["case"]), 1500))
            except Exception:
                pass
            print("sub-check %s: %s%s" % (sub, msg[:3000], "" if ok else "\n(not reproduced by the case alone in a fresh process)"))
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            nviol += 1
        evaluations = sum(d["evaluations"] for d in per.values()) + ncorpus
        distinct = sum(len(d["distinct"]) for d in per.values())
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": distinct,
                "rule": meta["rule"],
                "samples": [{"sub": k, "case": s} for k, d in per.items() for s in d["samples"][:3]][:30],
                "per_subcheck": {k: {"evaluations": d["evaluations"], "distinct_nontrivial": len(d["distinct"]), "labels": dict(sorted(d["labels"].items()))} for k, d in per.items()},
                "saved_cases_replayed": ncorpus,
                "notes": notes[:20],
            },
            "assumptions": meta["assumptions"],
            "wall_s": round(time.time() - self.t0, 2),
            "violations": nviol,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, d in per.items():
            print("%s/%s: %d cases, %d distinct non-trivial %s" % (self.prop, k, d["evaluations"], len(d["distinct"]), json.dumps(dict(sorted(d["labels"].items())))))
        for n in notes[:20]:
            print("note: " + n)
        if nviol:
            return 1
        if errors:
            for e in errors[:5]:
                print("ERROR: " + e)
            return 2
        if evaluations == 0 or (distinct == 0 and not os.environ.get("VERIF_SUBS")):
            print("ERROR: nothing was explored")
            return 2
        print("%s held on %d cases (%d distinct non-trivial) in %.1f s" % (self.prop, evaluations, distinct, time.time() - self.t0))
        return 0


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--worker")
    ap.add_argument("--replay-worker", dest="replay_worker")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args(argv)
    if a.worker:
        return worker_main(a)
    if a.replay_worker:
        return replay_worker(a)
    from . import build

    if a.setup:
        for fl in ("normal", "asan"):
            print(build.build(fl))
        return 0
    r = Runner(a.prop, a.tier)
    if a.replay:
        try:
            bad, text = r.replay(build.build(r.flavor), os.path.abspath(a.replay), tries=1)
            print(text)
            if bad:
                print("VIOLATION property=%s replay=%s" % (a.prop, os.path.abspath(a.replay)))
            return {True: 1, False: 0, None: 2}[bad]
        finally:
            shutil.rmtree(r.scratch, ignore_errors=True)
    return r.run()
