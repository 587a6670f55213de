"""Verdict discipline shared by all checks: counting of what monitors observed,
violations with witnesses, inconclusive outcomes, evidence files."""

import contextlib
import hashlib
import io
import json
import os
import pathlib
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
MAX_VIOLATIONS = 5  # kept per check (all are counted)


class Skip(Exception):
    """The rest of the current case can't be judged (a violation was recorded)."""


class Inconclusive(Exception):
    """A monitor wasn't reached, or the harness couldn't do its work."""


class CpuLimit(BaseException):
    """A library call used far more CPU time than it ever should."""


def jsonable(obj):
    if isinstance(obj, np.ndarray):
        if obj.size > 2000:
            return {
                "array": list(obj.shape),
                "dtype": str(obj.dtype),
                "sha": digest(obj),
                "head": jsonable(obj.ravel()[:20]),
            }
        return obj.astype(int).tolist() if obj.dtype == bool else obj.tolist()
    if isinstance(obj, np.generic):
        return obj.item()
    if isinstance(obj, dict):
        return {str(k): jsonable(v) for k, v in obj.items()}
    if isinstance(obj, (list, tuple, set, frozenset)):
        return [jsonable(o) for o in obj]
    if isinstance(obj, (str, int, float, bool)) or obj is None:
        return obj
    return repr(obj)


def digest(*objs):
    h = hashlib.sha1()
    for obj in objs:
        if isinstance(obj, np.ndarray):
            h.update(str((obj.shape, obj.dtype.str)).encode())
            h.update(np.ascontiguousarray(obj).tobytes())
        elif hasattr(obj, "detach"):
            h.update(obj.detach().cpu().numpy().tobytes())
        else:
            h.update(repr(obj).encode())
    return h.hexdigest()[:16]


class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = scratch
        self.start = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counters = {}
        self.violations = []
        self.num_violations = 0
        self.known = []
        self.rule = ""
        self.assumptions = []
        self.case_info = None
        self.exhaustive = None
        self.in_shard = False

    # ---- workload
    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *names):
        key = hashlib.sha256(repr((self.prop, self.seed) + names).encode()).digest()
        return np.random.default_rng(int.from_bytes(key[:8], "little"))

    def elapsed(self):
        return time.time() - self.start

    def out_of_time(self, quick, thorough):
        """Workloads are capped by cases; this is only a safety net on slow machines."""
        late = self.elapsed() > self.pick(quick, thorough)
        if late:
            self.count("workload cut short by time")
        return late

    # ---- observations
    def case(self, info, nontrivial=True, key=None):
        """Start of one evaluated case; info is the witness if it is violated."""
        self.evaluations += 1
        self.case_info = info
        if nontrivial:
            self.distinct.add(key if key is not None else digest(repr(jsonable(info))))
        if len(self.samples) < 4 and (nontrivial or not self.samples):
            text = json.dumps(jsonable(info))
            self.samples.append(json.loads(text) if len(text) < 3000 else text[:3000])

    def count(self, name, num=1):
        self.counters[name] = self.counters.get(name, 0) + int(num)

    def high(self, name, value):
        name = "max " + name
        self.counters[name] = max(self.counters.get(name, float("-inf")), float(value))

    # ---- verdicts
    def violate(self, what, **witness):
        self.num_violations += 1
        if len(self.violations) < MAX_VIOLATIONS:
            self.violations.append(
                dict(what=what, case=jsonable(self.case_info), witness=jsonable(witness))
            )

    def expect(self, cond, what, **witness):
        self.count("oracle judgements")
        if not cond:
            self.violate(what, **witness)
        return bool(cond)

    def need(self, cond, what, **witness):
        """Like expect, but nothing else about the case can be judged otherwise."""
        if not self.expect(cond, what, **witness):
            raise Skip

    @contextlib.contextmanager
    def guarded(self):
        """Runs one case; a Skip ends only this case. Results that the oracles can't even make
        sense of are violations, unless it's the surroundings which failed."""
        try:
            yield
        except Skip:
            self.count("cases ended early")
        except (Inconclusive, MemoryError, OSError, ImportError, subprocess.SubprocessError):
            raise
        except Exception as e:
            if isinstance(e, AttributeError) and str(e.name).startswith("_"):
                raise
            self.violate(
                f"results can't be judged: {type(e).__name__}: {e}",
                traceback=traceback.format_exc(limit=-6),
            )

    @contextlib.contextmanager
    def lib(self, what="library call", cpu=300, quiet=True, **witness):
        """Around calls into medil: an exception on valid input or running
        (nearly) forever is a violation."""
        old_out = sys.stdout
        try:
            if quiet:
                sys.stdout = io.StringIO()
            with cpu_limit(cpu):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    yield
        except (Skip, Inconclusive):
            raise
        except CpuLimit:
            self.violate(f"{what}: not finished after {cpu} s of CPU time", **witness)
            raise Skip
        except Exception as e:
            self.violate(
                f"{what} raised {type(e).__name__}: {e}",
                traceback=traceback.format_exc(limit=-6),
                **witness,
            )
            raise Skip
        finally:
            sys.stdout = old_out

    def stat(self, what, value, expected, sd, z_max=7.0, slack=0.0, **witness):
        """Judges a statistic of the observed runs: alarms only beyond z_max
        standard deviations (plus slack), i.e. never by chance."""
        dev = max(0.0, abs(value - expected) - slack)
        z = dev / sd if sd > 0 else (0.0 if dev == 0 else np.inf)
        self.high("z score", z)
        return self.expect(
            z <= z_max, f"{what}: observed {value}, expected {expected} (z={z:.1f})", **witness
        )

    def require(self, counter, minimum=1):
        if self.counters.get(counter, 0) < minimum and not self.num_violations:
            raise Inconclusive(
                f"monitor '{counter}' observed {self.counters.get(counter, 0)} < {minimum}"
            )

    # ---- parallel workload
    def shards(self, func, num=8):
        """Runs func(ctx, idx) in num forked processes, merging what they observed."""
        procs = []
        sys.stdout.flush()
        for idx in range(num):
            path = os.path.join(self.scratch, f"shard-{idx}-{time.time_ns()}")
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    self.evaluations, self.distinct, self.samples = 0, set(), []
                    self.counters, self.violations, self.num_violations = {}, [], 0
                    self.in_shard = True
                    err = None
                    try:
                        func(self, idx)
                    except Skip:
                        pass
                    except BaseException:
                        err = traceback.format_exc()
                    state = dict(
                        evaluations=self.evaluations,
                        distinct=self.distinct,
                        samples=self.samples,
                        counters=self.counters,
                        violations=self.violations,
                        num_violations=self.num_violations,
                        err=err,
                    )
                    with open(path + ".tmp", "wb") as f:
                        pickle.dump(state, f)
                    os.rename(path + ".tmp", path)
                    code = 0
                finally:
                    os._exit(code)
            procs.append((pid, path, idx))
        errors = []
        for pid, path, idx in procs:
            os.waitpid(pid, 0)
            if not os.path.exists(path):
                errors.append(f"shard {idx} died")
                continue
            with open(path, "rb") as f:
                state = pickle.load(f)
            os.remove(path)
            self.evaluations += state["evaluations"]
            self.distinct |= state["distinct"]
            self.samples = (self.samples + state["samples"])[:4]
            for name, num_ in state["counters"].items():
                if name.startswith("max "):
                    self.counters[name] = max(self.counters.get(name, -np.inf), num_)
                else:
                    self.counters[name] = self.counters.get(name, 0) + num_
            self.num_violations += state["num_violations"]
            self.violations = (self.violations + state["violations"])[:MAX_VIOLATIONS]
            if state["err"]:
                errors.append(f"shard {idx}: {state['err']}")
        if errors and not self.num_violations:
            raise Inconclusive("\n".join(errors))


@contextlib.contextmanager
def cpu_limit(seconds):
    def handler(signum, frame):
        raise CpuLimit

    old = signal.signal(signal.SIGPROF, handler)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def load_medil():
    """Imports medil from the current working tree, and from nowhere else."""
    sys.path.insert(0, str(REPO))
    import medil

    if pathlib.Path(medil.__file__).resolve().parent != (REPO / "medil").resolve():
        raise Inconclusive(f"medil imported from {medil.__file__}")
    import torch

    torch.set_num_threads(1)
    return medil


def known_findings(prop):
    """Entries 'finding: property=<id> key=<key> <what>'; fixed entries suppress nothing."""
    found = {}
    path = VERIF / "known_findings.txt"
    for line in path.read_text().splitlines() if path.exists() else ():
        if line.startswith("finding:") and f"property={prop} " in line:
            key = line.split("key=")[1].split()[0]
            found[key] = line
    return found


def run(prop, func, tier, seed):
    real_out = sys.stdout
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    cwd = os.getcwd()
    work = os.path.join(scratch, "cwd")
    os.mkdir(work)
    os.chdir(work)
    ctx = Ctx(prop, tier, seed, scratch)
    status = 0
    reason = None
    try:
        load_medil()
        try:
            func(ctx)
        except Skip:
            pass
    except Inconclusive as e:
        status, reason = 2, str(e)
    except BaseException:
        status, reason = 2, traceback.format_exc()
    finally:
        sys.stdout = real_out
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)

    if ctx.num_violations:
        status = 1
    elif status == 0 and (ctx.evaluations == 0 or not ctx.counters.get("oracle judgements")):
        status, reason = 2, "nothing was observed"

    evidence = VERIF / "evidence"
    evidence.mkdir(exist_ok=True)
    coverage = dict(
        evaluations=ctx.evaluations,
        distinct_nontrivial=len(ctx.distinct),
        rule=ctx.rule or "see DESIGN.md",
        samples=ctx.samples,
        observed=ctx.counters,
    )
    if ctx.exhaustive is not None:
        coverage["exhaustive"] = ctx.exhaustive
    (evidence / f"{prop}.json").write_text(
        json.dumps(
            dict(
                property=prop,
                tier=tier,
                seed=seed,
                level="exploration",
                coverage=coverage,
                assumptions=ctx.assumptions,
                wall_s=round(ctx.elapsed(), 2),
                violations=ctx.num_violations,
            ),
            indent=1,
        )
    )
    if status == 1:
        replay = evidence / f"{prop}.replay.json"
        replay.write_text(
            json.dumps(
                dict(property=prop, tier=tier, seed=seed, violations=ctx.violations), indent=1
            )
        )
        for v in ctx.violations:
            print(f"  {v['what']}"[:2000])
            tb = v["witness"].get("traceback") if isinstance(v["witness"], dict) else None
            if tb:
                print("    " + tb.replace("\n", "\n    ")[:3000])
        print(f"{ctx.num_violations} violations")
        print(f"VIOLATION property={prop} replay={replay}")
        if reason:
            print(reason)
    elif status == 2:
        print(f"INCONCLUSIVE property={prop}: {reason}")
    else:
        print(
            f"HELD property={prop} tier={tier} seed={seed} evaluations={ctx.evaluations} "
            f"distinct={len(ctx.distinct)} wall={ctx.elapsed():.1f}s observed={ctx.counters}"
        )
    return status
