#!/opt/venv/bin/python
"""Validates planted bugs (seeded/<id>) in scratch copies of /repo and runs the property's own check against them.

    tools/plant.py [--no-check] [--no-test] ID...      (no ID: all)
Never touches /repo itself. Prints one line per bug.
"""
import argparse
import json
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

VERIF = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1")


def sh(cmd, cwd, env=ENV, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, capture_output=True, text=True)


def validate(bug, args, clean):
    d = VERIF / "seeded" / bug
    meta = json.loads((d / "meta.json").read_text())
    out = {"id": bug, "property": meta["property"]}
    tmp = pathlib.Path(tempfile.mkdtemp(prefix="plant-"))
    try:
        demo = tmp / "demo"
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        wt = tmp / "repo"
        subprocess.run(["cp", "-a", "/repo", str(wt)], check=True)
        r = sh(["git", "apply", str(d / "patch.diff")], wt)
        if r.returncode:
            return dict(out, error="apply: " + r.stderr[-300:])
        files = sh(["git", "diff", "--name-only"], wt).stdout.split()
        native = any("/_lib/" in f for f in files)
        if native:
            for f in (wt / "pyEdgeEval/_lib").glob("*.so"):
                f.unlink()
            shutil.rmtree(wt / "build", ignore_errors=True)
            for f in ("correspond_pixels.cpp", "nms.cpp"):
                (wt / "pyEdgeEval/_lib" / f).unlink(missing_ok=True)
            r = sh([PY, "setup.py", "-q", "build_ext", "--inplace"], wt)
            if r.returncode:
                return dict(out, error="build: " + r.stderr[-300:])
        r = sh(["bash", str(demo / "demo.sh")], clean, timeout=300)
        out["demo_clean"] = r.returncode
        if r.returncode:
            out["err"] = r.stderr[-600:]
        r = sh(["bash", str(demo / "demo.sh")], wt, timeout=300)
        out["demo_bug"] = r.returncode
        out["demo_msg"] = (r.stderr.strip().splitlines() or [""])[-1][:150]
        if not args.no_test:
            r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests/test_bsds500.py"], wt,
                   env=dict(ENV, PYTHONPATH=str(wt)))
            out["test"] = r.returncode
        if not args.no_check:
            for prop in [meta["property"]] + args.also:
                r = sh([str(VERIF / "run.py"), prop, "quick"], VERIF,
                       env=dict(ENV, VERIF_REPO=str(wt), VERIF_SEED=str(args.seed)))
                lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                out[f"check_{prop}"] = r.returncode
                if r.returncode == 1 and f"VIOLATION property={prop} " not in "\n".join(lines) + " ":
                    out[f"check_{prop}"] = "1 without VIOLATION line"
                if r.returncode not in (0, 1):
                    out["tail"] = (r.stdout + r.stderr)[-500:]
        return out
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--no-check", action="store_true")
    ap.add_argument("--no-test", action="store_true")
    ap.add_argument("--seed", default=1)
    ap.add_argument("--also", nargs="*", default=[])
    args = ap.parse_args()
    ids = args.ids or sorted(p.name for p in (VERIF / "seeded").iterdir() if p.is_dir())
    clean = pathlib.Path(tempfile.mkdtemp(prefix="plant-clean-"))
    try:
        subprocess.run(["cp", "-a", "/repo/.", str(clean)], check=True)
        for bug in ids:
            out = validate(bug, args, clean)
            check = out.get("check_" + out["property"])
            good = (not out.get("error") and out.get("demo_clean") == 0 and out.get("demo_bug") not in (0, None)
                    and out.get("test", 0) == 0)
            print("COUNTS " if good else "BAD    ", "caught" if check == 1 else "missed" if check == 0 else "-     ",
                  json.dumps(out), flush=True)
    finally:
        shutil.rmtree(clean, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
