"""Harness shared by every check: job pool, verdicts, evidence, replays, known findings.

A check module (checks/cXX.py) defines
    PROPERTY : id                       RULE : what makes a case non-trivial
    jobs(tier, rng) -> list of job dicts {"kind":..., "seed":...}
    run_job(job) -> Result
A job is a deterministic function of its dict, so a replay file is just the dict.
"""
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MTLN_REPO", "/repo")
JOB_TIMEOUT = int(os.environ.get("VERIF_JOB_TIMEOUT", "150"))


class Violation(Exception):
    """Raised by an oracle: the observed execution breaks the property."""

    def __init__(self, oracle, detail):
        super().__init__(f"[{oracle}] {detail}")
        self.oracle = oracle
        self.detail = detail


class Inconclusive(Exception):
    pass


class JobTimeout(Exception):
    pass


class Result:
    """What one job observed."""

    def __init__(self):
        self.signature = None      # identifies the shape of the case; None = trivial
        self.counters = {}
        self.sample = None
        self.margins = {}          # oracle -> worst observed error / tolerance

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def margin(self, oracle, value):
        self.margins[oracle] = max(self.margins.get(oracle, 0.0), float(value))


def expect(res, oracle, error, tolerance, detail=""):
    """Record error/tolerance for an oracle; raise when it exceeds one (or is not a number)."""
    m = float(error) / tolerance
    res.count("oracle:" + oracle)
    if not (m <= 1.0):
        raise Violation(oracle, f"error {float(error):.3e} exceeds {tolerance:.1e}. {detail}")
    res.margin(oracle, m)


def require(res, oracle, condition, detail=""):
    res.count("oracle:" + oracle)
    if not condition:
        raise Violation(oracle, str(detail))


def _alarm(signum, frame):
    raise JobTimeout()


def _in_repo(tb):
    root = os.path.join(os.path.abspath(REPO), "python") + os.sep
    return any(os.path.abspath(f.filename).startswith(root) for f in traceback.extract_tb(tb))


def _work(args):
    modname, job = args
    import importlib
    mod = importlib.import_module(modname)
    out = {"job": job, "status": "held", "detail": "", "oracle": "", "counters": {}, "margins": {},
           "signature": None, "sample": None}
    res = Result()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(JOB_TIMEOUT)
    t0 = time.time()
    try:
        mod.run_job(job, res)
    except Violation as v:
        out.update(status="violated", oracle=v.oracle, detail=v.detail)
    except Inconclusive as v:
        out.update(status="inconclusive", detail=str(v))
    except JobTimeout:
        out.update(status="inconclusive", detail=f"job exceeded {JOB_TIMEOUT} s")
    except BaseException as e:  # noqa
        tb = sys.exc_info()[2]
        text = "".join(traceback.format_exception(type(e), e, tb))[-3000:]
        if _in_repo(tb):
            # the code under test raised on a valid input: an observable failure of the property
            out.update(status="violated", oracle="unexpected-exception",
                       detail=f"{type(e).__name__}: {e}\n{text}")
        else:
            out.update(status="error", detail=text)
    finally:
        signal.alarm(0)
    out.update(counters=res.counters, margins=res.margins, signature=res.signature,
               sample=res.sample, wall=time.time() - t0)
    return out


def known_findings(prop):
    """Entries `known: property=<id> key=<oracle>/<kind> <what fails>` of known_findings.txt."""
    path = os.path.join(VERIF, "known_findings.txt")
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:"):
                fields = dict(w.split("=", 1) for w in line.split()[1:3])
                if fields.get("property") == prop:
                    out[fields["key"]] = line.split(None, 3)[3]
    return out


def run_check(modname, tier, seed, replay=None):
    import importlib
    import random
    t0 = time.time()
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    known = known_findings(prop)

    if replay:
        jobs = [json.load(open(replay))["job"]]
    else:
        rng = random.Random(f"{prop}/{seed}")
        jobs = mod.jobs(tier, rng)
    only = os.environ.get("VERIF_ONLY")
    if only:
        jobs = [j for j in jobs if j["kind"] in only.split(",")]

    procs = min(int(os.environ.get("VERIF_PROCS", os.cpu_count() or 8)), len(jobs))
    outs = []
    if procs <= 1 or replay:
        outs = [_work((modname, j)) for j in jobs]
    else:
        ctx = mp.get_context("fork")
        with ctx.Pool(procs) as pool:
            for o in pool.imap_unordered(_work, [(modname, j) for j in jobs], chunksize=1):
                outs.append(o)
    outs.sort(key=lambda o: json.dumps(o["job"], sort_keys=True))

    counters, margins, sigs, samples, kinds = {}, {}, set(), [], {}
    violations, inconclusive, errors, seen_known = [], [], [], {}
    for o in outs:
        kinds[o["job"]["kind"]] = kinds.get(o["job"]["kind"], 0) + 1
        for k, n in o["counters"].items():
            counters[k] = counters.get(k, 0) + n
        for k, m in o["margins"].items():
            margins[k] = max(margins.get(k, 0.0), m)
        if o["signature"] is not None:
            sigs.add(json.dumps(o["signature"], sort_keys=True, default=str))
        if o["status"] == "violated":
            key = f'{o["oracle"]}/{o["job"]["kind"]}'
            if key in known:
                seen_known.setdefault(key, o)
            else:
                violations.append(o)
        elif o["status"] == "inconclusive":
            inconclusive.append(o)
        elif o["status"] == "error":
            errors.append(o)
    by_kind = {}
    for o in outs:
        if o["sample"] is not None and by_kind.setdefault(o["job"]["kind"], 0) < 1:
            by_kind[o["job"]["kind"]] += 1
            samples.append({"job": o["job"], "observed": o["sample"]})

    for key, o in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {known[key]}")

    missing = []
    if not replay and not only:
        for name, least in getattr(mod, "MUST_OBSERVE", {}).items():
            if counters.get(name, 0) < least:
                missing.append(f"{name}: {counters.get(name, 0)} < {least}")

    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(outs),
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:12],
            "jobs_per_kind": kinds,
            "observed": counters,
            "worst_error_over_tolerance": {k: round(m, 6) for k, m in sorted(margins.items())},
            "inconclusive": len(inconclusive),
            "slowest_job_s": round(max([o["wall"] for o in outs] or [0]), 2),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if not replay:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1, default=str)

    if violations:
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        shown = set()
        for o in violations:
            key = (o["oracle"], o["job"]["kind"])
            if key in shown:
                continue
            shown.add(key)
            h = hashlib.sha1(json.dumps(o["job"], sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join("replay", f"{prop}-{h}.json")
            with open(os.path.join(VERIF, path), "w") as f:
                json.dump({"property": prop, "job": o["job"], "oracle": o["oracle"],
                           "detail": o["detail"],
                           "replay": f"bash run.sh {prop} {tier} --replay {path}"}, f, indent=1)
            print(f"VIOLATION property={prop} replay={path}")
            print(f"  {o['job']} [{o['oracle']}] {o['detail'][-1500:]}")
        print(f"{prop}: {len(violations)} of {len(outs)} cases violated ({evidence['wall_s']} s)")
        return 1
    for o in errors[:3]:
        print(f"HARNESS-ERROR {o['job']}: {o['detail']}")
    if errors:
        return 2
    for o in inconclusive[:5]:
        print(f"inconclusive {o['job']}: {o['detail']}")
    if inconclusive and len(inconclusive) > 0.05 * len(outs):
        print(f"{prop}: inconclusive, {len(inconclusive)} of {len(outs)} cases gave no answer")
        return 3
    if missing:
        print(f"{prop}: inconclusive, monitors not reached: {missing}")
        return 3
    worst = max(margins.items(), key=lambda kv: kv[1]) if margins else ("-", 0)
    print(f"{prop}: held on {len(outs)} cases ({len(sigs)} distinct, {kinds}); "
          f"worst margin {worst[0]} {worst[1]:.3g}; {evidence['wall_s']} s")
    return 0
