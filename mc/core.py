"""Bounded exhaustive explorer.

A check is a list of families.  A family enumerates *every* case of a finite,
explicitly bounded space (a case is a JSON value: an input, a history of calls
or a sequence of environment answers) and `run(case)` drives the real code of
/repo through its public entry points, comparing every observation with a
reference model.  The space is split over worker processes by striding, each
worker enumerating the same deterministic generator.

Nothing is sampled; if the time cap is hit the run says so (`exhaustive` false).
"""
from __future__ import annotations

import argparse
import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property does not hold on this case."""


class CaseTimeout(Exception):
    pass


def require(cond, msg, **info):
    if not cond:
        raise Violation(msg + (" " + dumps(info)[:4000] if info else ""))


def dumps(o):
    return json.dumps(o, sort_keys=True, default=_default)


def _default(o):
    if isinstance(o, (set, frozenset)):
        return sorted(o, key=repr)
    if hasattr(o, "tolist"):
        return o.tolist()
    return repr(o)


# ------------------------------------------------------------------ counters
class Counters:
    def __init__(self):
        self.transitions = 0
        self.states = set()
        self.outcomes = set()


C = Counters()


def step(n=1):
    """Count n calls into the implementation."""
    C.transitions += n


def state(obj):
    """Record a reference-model state (the abstract state or predicted result)."""
    C.states.add(_h(obj))


def outcome(obj):
    """Record an observed result of the implementation."""
    C.outcomes.add(_h(obj))


def _h(obj):
    return int.from_bytes(
        hashlib.blake2b(dumps(obj).encode(), digest_size=8).digest(), "big"
    )


# ------------------------------------------------------------------ scratch
_scratch_root = None
_scratch_n = 0


def _root():
    global _scratch_root
    if _scratch_root is None or not os.path.isdir(_scratch_root):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _scratch_root = tempfile.mkdtemp(prefix="vmc_", dir=base)
    return _scratch_root


@contextlib.contextmanager
def scratch():
    """A fresh empty directory, removed afterwards."""
    global _scratch_n
    _scratch_n += 1
    d = os.path.join(_root(), f"c{_scratch_n}")
    os.mkdir(d)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def clean_scratch():
    global _scratch_root
    if _scratch_root:
        shutil.rmtree(_scratch_root, ignore_errors=True)
        _scratch_root = None


# ------------------------------------------------------------------ families
class Family:
    """name, gen(tier)->iterable of JSON cases, run(case), bound description."""

    def __init__(self, name, gen, run, bound, case_timeout=120):
        self.name = name
        self.gen = gen
        self.run = run
        self.bound = bound
        self.case_timeout = case_timeout


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(fam, case):
    """Returns None or a violation message."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, fam.case_timeout)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fam.run(case)
        return None
    except Violation as e:
        return str(e)
    except CaseTimeout:
        return f"no answer within {fam.case_timeout} s"
    except MemoryError:
        raise
    except OSError as e:
        if e.errno in (28, 24, 12):  # ENOSPC, EMFILE, ENOMEM
            raise
        return "unexpected " + traceback.format_exc(limit=-6)
    except Exception:
        return "unexpected " + traceback.format_exc(limit=-6)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(mod_name, tier, idx, n, deadline, stop, q):
    try:
        setup_worker()
        mod = importlib.import_module(mod_name)
        res = dict(families=[], found=[], samples=[], capped=False)
        for fi, fam in enumerate(mod.FAMILIES):
            done = 0
            t0 = time.time()
            C.states, C.outcomes, C.transitions = set(), set(), 0
            for ci, case in enumerate(fam.gen(tier)):
                if ci % n != idx:
                    continue
                if stop.is_set():
                    break
                if time.time() > deadline:
                    res["capped"] = True
                    break
                msg = run_one(fam, case)
                done += 1
                if idx == 0 and done == 2:
                    res["samples"].append(dict(family=fam.name, case=case))
                if msg is not None:
                    again = run_one(fam, case)
                    res["found"].append(
                        dict(fi=fi, ci=ci, family=fam.name, case=case,
                             message=msg, reproduced=again is not None)
                    )
                    stop.set()
                    break
            res["families"].append(
                dict(cases=done, transitions=C.transitions,
                     states=list(C.states), outcomes=list(C.outcomes),
                     cpu=time.time() - t0)
            )
            if res["found"] or res["capped"]:
                break
        clean_scratch()
        q.put(("ok", idx, res))
    except BaseException:
        clean_scratch()
        q.put(("err", idx, traceback.format_exc()))


def setup_worker():
    """Import the code under test from the working tree of /repo."""
    src = os.path.join(REPO, "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    sys.dont_write_bytecode = True
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "ARROW_IO_THREADS"):
        os.environ.setdefault(v, "1")
    import pyarrow as pa

    pa.set_cpu_count(1)
    pa.set_io_thread_count(1)
    import valor_lite

    got = os.path.dirname(os.path.abspath(valor_lite.__file__))
    want = os.path.join(src, "valor_lite")
    if os.path.realpath(got) != os.path.realpath(want):
        raise RuntimeError(f"imported {got}, expected {want}")


def load_known(prop):
    """Known findings: lines 'finding: property=<id> key=<key> <what fails>'."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f"finding: property={prop} "):
                rest = line.split("key=", 1)[1]
                key, _, what = rest.partition(" ")
                out[key] = what.strip()
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod_name = f"mc.checks.{prop.lower()}"
    if a.replay:
        return replay(mod_name, prop, a.replay)

    cap = float(os.environ.get("VERIF_CAP", "600" if tier == "quick" else "10800"))
    t0 = time.time()
    ctx = mp.get_context("fork")
    stop, q = ctx.Event(), ctx.Queue()
    n = max(1, a.jobs)
    procs = [
        ctx.Process(target=_worker, args=(mod_name, tier, i, n, t0 + cap, stop, q), daemon=True)
        for i in range(n)
    ]
    for p in procs:
        p.start()
    results, errors = {}, []
    while len(results) + len(errors) < n:
        try:
            kind, idx, r = q.get(timeout=5)
            (results.__setitem__(idx, r) if kind == "ok" else errors.append(r))
            if kind == "err":
                stop.set()
        except Exception:
            dead = [p for p in procs if not p.is_alive() and p.exitcode not in (0, None)]
            if dead and q.empty():
                time.sleep(1)
                if q.empty():
                    errors.append(f"worker died with {[p.exitcode for p in dead]}")
                    break
    for p in procs:
        p.join(timeout=5)
        if p.is_alive():
            p.terminate()

    setup_worker()
    mod = importlib.import_module(mod_name)
    fams = []
    states, outcomes, transitions, cases = set(), set(), 0, 0
    for fi, fam in enumerate(mod.FAMILIES):
        fs, fo, ft, fc, cpu = set(), set(), 0, 0, 0.0
        for r in results.values():
            if fi < len(r["families"]):
                f = r["families"][fi]
                fs.update(f["states"]); fo.update(f["outcomes"])
                ft += f["transitions"]; fc += f["cases"]; cpu += f["cpu"]
        fams.append(dict(family=fam.name, bound=fam.bound if isinstance(fam.bound, str) else fam.bound(tier),
                         histories=fc, calls=ft, model_states=len(fs),
                         distinct_outcomes=len(fo), cpu_s=round(cpu, 1)))
        states |= {(fi, s) for s in fs}; outcomes |= {(fi, s) for s in fo}
        transitions += ft; cases += fc
    found = sorted((f for r in results.values() for f in r["found"]), key=lambda f: (f["fi"], f["ci"]))
    capped = any(r["capped"] for r in results.values())
    samples = [s for r in results.values() for s in r["samples"]][:12]
    wall = time.time() - t0

    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=len(states), transitions=transitions,
            traces_validated_against_impl=cases,
            distinct_observed_outcomes=len(outcomes),
            exhaustive=not capped and not found and not errors,
            rule="states: distinct states/results predicted by the reference model; transitions: calls "
                 "made into the code of /repo; traces: complete histories executed on the real code and "
                 "compared with the model at every observation. Every case within the bounds of each family is run.",
            families=fams,
            samples=samples or [dict(note="stopped before the first sample")],
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2),
        violations=len(found),
    )
    if capped:
        ev["coverage"]["cap"] = f"time cap of {cap:.0f} s hit: families after the last one listed complete were cut short"
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)

    if errors and not found:
        print("ERROR of the check:", errors[0], file=sys.stderr)
        _write_ev(prop, ev)
        return 2
    known = load_known(prop)
    rc = 0
    if found:
        f = found[0]
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{prop}.json")
        with open(path, "w") as fh:
            json.dump(dict(property=prop, family=f["family"], case=f["case"],
                           message=f["message"], reproduced_alone=f["reproduced"],
                           how=f"cd {VERIF} && ./check.sh {prop} quick --replay {path}"), fh, indent=1, default=_default)
        print(f"family={f['family']} case={dumps(f['case'])[:1500]}")
        print(f["message"][:3000])
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    else:
        kf = getattr(mod, "known_findings", None)
        if kf:
            for key, fails in kf().items():
                if fails and key in known:
                    print(f"KNOWN-FINDING: property={prop} {known[key]}")
        print(f"OK property={prop} tier={tier} histories={cases} calls={transitions} "
              f"model_states={len(states)} outcomes={len(outcomes)} exhaustive={not capped} wall={wall:.1f}s")
    _write_ev(prop, ev)
    return rc


def _write_ev(prop, ev):
    p = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=_default)
    os.replace(p + ".tmp", p)


def replay(mod_name, prop, path):
    setup_worker()
    mod = importlib.import_module(mod_name)
    r = json.load(open(path))
    fam = next(f for f in mod.FAMILIES if f.name == r["family"])
    msgs = [run_one(fam, r["case"]) for _ in range(2)]
    clean_scratch()
    print("run 1:", msgs[0]); print("run 2:", msgs[1])
    if msgs[0] or msgs[1]:
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("not reproduced")
    return 0


if __name__ == "__main__":
    sys.exit(main())
