"""Tries the planted bugs in seeded/ (or the ids given): each has to apply, to change lines
of the original repository, to pass the repository's stable tests and its demonstration has
to notice it; then runs the check of its property (or, with --all, every check) on a scratch copy.

    python3-vt tools/seeded.py [--seed N] [--tier quick] [--no-tests] [--props C01,C02] [id ...]
"""

import argparse
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = pathlib.Path(__file__).resolve().parent.parent
BASE = "ae90423"  # /repo before the fix: commits
ENV = dict(
    os.environ,
    PYTHONDONTWRITEBYTECODE="1",
    PYTHONHASHSEED="0",
    MPLBACKEND="Agg",
    CUDA_VISIBLE_DEVICES="",
    OMP_NUM_THREADS="1",
    OPENBLAS_NUM_THREADS="1",
)


def sh(cmd, cwd, env=ENV, timeout=1000):
    try:
        res = subprocess.run(cmd, cwd=cwd, env=env, timeout=timeout, capture_output=True, text=True)
        return res.returncode, res.stdout + res.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def changes_original(patch):
    """Whether a removed line is one that the fix: commits haven't touched."""
    name, line, found = None, 0, False
    for text in patch.splitlines():
        if text.startswith("--- a/"):
            name = text[6:]
            _, blame = sh(["git", "blame", "-s", f"{BASE}..", "--", name], "/repo")
            old = [l.startswith("^") for l in blame.splitlines()]
        elif text.startswith("@@"):
            line = int(re.match(r"@@ -(\d+)", text)[1]) - 1
        elif text.startswith("-") and not text.startswith("---"):
            found |= old[line]
            line += 1
        elif text.startswith(" "):
            line += 1
    return found


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument("--seed", default="1")
    parser.add_argument("--tier", default="quick")
    parser.add_argument("--no-tests", action="store_true")
    parser.add_argument("--no-check", action="store_true")
    parser.add_argument("--jobs", type=int, default=1)
    parser.add_argument("--props", help="checks to run instead of the bug's own")
    parser.add_argument("ids", nargs="*")
    args = parser.parse_args()
    stable = json.load(open("/opt/vp/BASELINE.json"))
    ids = args.ids or sorted(p.name for p in (VERIF / "seeded").iterdir())

    def one(name):
        folder = VERIF / "seeded" / name
        meta = json.load(open(folder / "meta.json"))
        patch = (folder / "patch.diff").read_text()
        tmp = tempfile.mkdtemp(prefix="seeded-")
        repo, demo = tmp + "/repo", tmp + "/demo"
        res = [f"{name} {meta['property']}"]
        try:
            shutil.copytree("/repo", repo, symlinks=True)
            shutil.copytree(folder, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            res.append("orig" if changes_original(patch) else "NOT-ORIGINAL")
            if not args.no_tests:
                code, out = sh(["bash", demo + "/demo.sh"], repo)
                res.append("demo-clean ok" if code == 0 else f"DEMO-CLEAN FAILS {out[-600:]}")
            code, out = sh(["git", "apply", str(folder / "patch.diff")], repo)
            if code:
                print(*res, "DOES NOT APPLY", out, flush=True)
                return
            if not args.no_tests:
                code, out = sh(["bash", demo + "/demo.sh"], repo)
                res.append("demo-patched ok" if code else "DEMO MISSES IT")
                cmd = ["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"]
                code, out = sh(cmd, repo)
                tail = out.strip().splitlines()[-1] if out.strip() else ""
                res.append("tests ok" if code == 0 else f"TESTS: {tail}")
            if not args.no_check:
                for prop in (args.props or meta["property"]).split(","):
                    env = dict(ENV, VERIF_REPO=repo, VERIF_SEED=args.seed, VERIF_TIER=args.tier)
                    code, out = sh(["bash", "run.sh", prop], VERIF, env)
                    what = [l for l in out.splitlines() if "VIOLATION" in l or "what" in l]
                    verdict = {0: "MISSED", 1: "caught"}.get(code, f"exit {code}")
                    res.append(f"{prop} {verdict}")
                    if code == 1:
                        res.append("| " + " ".join(out.strip().splitlines()[-3:])[:300])
                    elif code:
                        res.append(out[-300:])
            print(*res, flush=True)
        finally:
            shutil.rmtree(tmp)

    with ThreadPoolExecutor(args.jobs) as pool:
        list(pool.map(one, ids))


if __name__ == "__main__":
    sys.exit(main())
