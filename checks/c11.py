"""C11: rewriting a document without changing what it says leaves every record unchanged.

Random documents and the repository's own example documents are rewritten (permuted, renumbered, renamed,
padded with unused entries), loaded and run by the real code, and the probe records compared."""
import copy
import glob
import json
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np

from checks.c10 import load, records, shape
from lib import doc, gen
from lib.core import REPO, VERIF, Inconclusive, expect, require

PROPERTY = "C11"
TECHNIQUE = "metamorphic runtime monitor: equivalent rewritings of a document (order, numbering, names, unused entries, process) run by the real code and compared at every sample of every probe"
LEVEL_NOTE = "Compares executions of the real code only; exploration over seeded random documents and the repository's example documents."
RULE = "a case is one document and one rewriting of it; non-trivial when its probes recorded a signal; distinct by structure and rewriting"
ASSUMPTIONS = ["the nesting of a bundle and the element list of a cable fix the order of its conductors and are kept",
               "the order within a united pair fixes the polarity of its sources and is kept",
               "tolerance 1e-9 of the largest record of the same kind (1e-6 with junctions of micro-ohms)"]
MUST_OBSERVE = {"oracle:rewritten": 80, "oracle:identical": 12, "rewritten order": 15, "rewritten numbers": 15, "rewritten names": 15,
                "rewritten unused": 15}

REWRITES = ("order", "numbers", "names", "unused")
LISTS = ("materials", "coordinates", "bundles", "cables", "terminations", "junctions", "sources", "probes", "cableEnds", "lumpedElements", "layers")


def jobs(tier, rng):
    return gen.jobs_from({"order": (16, 150), "numbers": (14, 120), "names": (12, 100), "unused": (14, 120), "all": (18, 250),
                          "example": (13, 60), "twice": (8, 60), "process": (2, 12)}, tier, rng)


# ---- rewritings: functions of (rng, document) returning (document, {old probe name: new}) ----------

def permuted(rng, items):
    return [items[k] for k in rng.permutation(len(items))]


def shuffle_keys(rng, x):
    if isinstance(x, dict):
        return {k: x[k] if k == "nestedElemIds" else shuffle_keys(rng, x[k]) for k in permuted(rng, list(x))}
    if isinstance(x, list):
        return [shuffle_keys(rng, v) for v in x]
    return x


def order(rng, d):
    d = copy.deepcopy(d)
    m = d["model"]
    for key in LISTS:
        if key in m:
            m[key] = permuted(rng, m[key])
    for key, els in m["elements"].items():
        if isinstance(els, list):
            m["elements"][key] = permuted(rng, els)
    for t in m.get("terminations", []):
        t["coordIds"] = permuted(rng, [permuted(rng, g) for g in t["coordIds"]])
    for j in m.get("junctions", []):
        j["unitedCoordIds"] = permuted(rng, j["unitedCoordIds"])
    return shuffle_keys(rng, d), {}


def deep(x, f):
    """Apply f to every number of nested lists."""
    return [deep(v, f) for v in x] if isinstance(x, list) else f(x)


def nested(x, f):
    if isinstance(x, dict):
        return {str(f(int(k))): nested(v, f) for k, v in x.items()}
    return " ".join(str(f(int(k))) for k in x.split())


def numbers(rng, d, which=("coordinates", "elements", "materials")):
    d = copy.deepcopy(d)
    m = d["model"]
    wide = int(rng.choice([1, 3, 50]))

    def renumbering(ids):
        ids = sorted(set(ids))
        new = 1 + rng.permutation(len(ids)*wide + 3)[:len(ids)]
        return dict(zip(ids, (int(x) for x in new)))
    same = dict.__getitem__
    cs = renumbering(int(c.split()[0]) for c in m["coordinates"])
    els = renumbering(int(e.split()[0]) for l in m["elements"].values() if isinstance(l, list) for e in l)
    ms = renumbering(x["materialId"] for x in m["materials"])
    ms[0] = 0
    if "coordinates" not in which:
        cs = {k: k for k in cs}
    if "elements" not in which:
        els = {k: k for k in els}
    if "materials" not in which:
        ms = {k: k for k in ms}
    fc, fe, fm = (lambda k: same(cs, k)), (lambda k: same(els, k)), (lambda k: ms.get(k, k))
    m["coordinates"] = [" ".join([str(fc(int(c.split()[0])))] + c.split()[1:]) for c in m["coordinates"]]
    for key, l in m["elements"].items():
        if isinstance(l, list):
            m["elements"][key] = [" ".join([str(fe(int(w[0]))), str(fm(int(w[1]))), w[2]] + [str(fc(int(x))) for x in w[3:]])
                                  for w in (e.split() for e in l)]
    for x in m["materials"]:
        x["materialId"] = fm(x["materialId"])
    for c in m["cables"]:
        c["materialId"] = fm(c["materialId"])
        for k in ("initialConnectorId", "endConnectorId"):
            if k in c:
                c[k] = fm(c[k])
        c["elemIds"] = deep(c["elemIds"], fe)
    for b in m["bundles"]:
        b["nestedElemIds"] = nested(b["nestedElemIds"], fe)
    for key in ("sources", "probes"):
        for x in m.get(key, []):
            x["elemIds"] = deep(x["elemIds"], fe)
    for t in m.get("terminations", []):
        t["coordIds"] = deep(t["coordIds"], fc)
    for j in m.get("junctions", []):
        j["unitedCoordIds"] = deep(j["unitedCoordIds"], fc)
    for key in ("cableEnds", "lumpedElements"):
        for x in m.get(key, []):
            x["materialId"] = fm(x["materialId"])
            x["coordIds"] = deep(x["coordIds"], fc)
    return d, {}


def names(rng, d):
    d = copy.deepcopy(d)
    m = d["model"]
    pool = [p + q for p in ("a", "cable", "line_", "X", "1", "S", "b0", "z ") for q in ("", "1", "10", "_", "end", "B", "0")]
    pool = permuted(rng, pool)
    extra = iter(f"n{k}" for k in range(1000))

    def fresh(olds):
        picks = permuted(rng, pool)
        if rng.random() < .3:                   # the same names on other things
            picks = permuted(rng, list(olds))
        return {o: (picks[k] if k < len(picks) else next(extra)) for k, o in enumerate(olds)}
    cables = fresh([c["name"] for c in m["cables"]])
    bundles = fresh([b["name"] for b in m["bundles"]])
    probes = fresh([p["name"] for p in m.get("probes", [])])
    for c in m["cables"]:
        c["name"] = cables[c["name"]]
    for b in m["bundles"]:
        b["name"] = bundles[b["name"]]
    for p in m.get("probes", []):
        p["name"] = probes[p["name"]]
    for key in ("sources", "probes", "lumpedElements"):
        for x in m.get(key, []):
            if "cable" in x:
                x["cable"] = cables[x["cable"]]
    for key in ("materials", "terminations", "junctions", "cableEnds", "layers"):
        for x in m.get(key, []):
            if "name" in x and rng.random() < .7:
                x["name"] = str(rng.choice(pool))
    return d, probes


def unused(rng, d):
    d = copy.deepcopy(d)
    m = d["model"]
    cs = [int(c.split()[0]) for c in m["coordinates"]]
    els = [int(e.split()[0]) for l in m["elements"].values() if isinstance(l, list) for e in l]
    ms = [x["materialId"] for x in m["materials"]]
    taken = {"c": set(cs), "e": set(els), "m": set(ms)}

    def fresh(kind):
        while True:
            k = int(rng.integers(1, 3000)) if rng.random() < .6 else min(set(range(1, 4000)) - taken[kind])
            if k not in taken[kind]:
                taken[kind].add(k)
                return k

    def put(items, x):
        items.insert(int(rng.integers(0, len(items)+1)), x)
    used = [c.split()[1:] for c in m["coordinates"]]
    new = []
    for _ in range(int(rng.integers(2, 8))):
        k = fresh("c")
        x = used[int(rng.integers(len(used)))] if rng.random() < .6 else [str(float(v)) for v in rng.normal(size=3)]
        put(m["coordinates"], f"{k} " + " ".join(x))
        new.append(k)
    for _ in range(3):
        if "node" in m["elements"]:
            put(m["elements"]["node"], f"{fresh('e')} 0 1 {int(rng.choice(cs + new))}")
    connectors = [x for x in m["materials"] if x["materialType"] == "Connector"]
    spare = dict(copy.deepcopy(connectors[int(rng.integers(len(connectors)))]), materialId=fresh("m"))
    for key in ("resistance", "capacitance"):
        if key in spare:
            spare[key] = 12.5
    put(m["materials"], spare)
    put(m["materials"], {"materialId": fresh("m"), "name": "spare", "materialType": "Dielectric", "permittivity": 2.2})
    wires = [x for x in m["materials"] if x["materialType"] == "Wire"]
    if wires:
        w = dict(wires[int(rng.integers(len(wires)))], materialId=fresh("m"), inductance=7e-7)
        w["transferImpedance"] = {"cte": 1.0, "prop": 0.0, "poles": {"real": [], "imag": []}, "residues": {"real": [], "imag": []}, "direction": "in"}
        put(m["materials"], w)
        key = "line" if "line" in m["elements"] else "polyline"
        e = fresh("e")
        put(m["elements"][key], f"{e} {w['materialId']} 1 {new[0]} {new[1]}")
        put(m["cables"], {"name": f"spare_{e}", "materialId": w["materialId"], "initialConnectorId": spare["materialId"],
                          "endConnectorId": spare["materialId"], "elemIds": [e], "ndiv": [3]})
    put(m.setdefault("layers", []), {"id": 77, "name": "unused"})
    m["unheard"] = {"of": [1, 2]}
    d["_comment"] = "padding"
    return d, {}


def rewrite(rng, d, which):
    names_map = {}
    for w in which:
        d, mp = {"order": order, "numbers": numbers, "names": names, "unused": unused}[w](rng, d)
        if mp:
            names_map = mp
    return d, names_map


# ---- the comparison --------------------------------------------------------------------------------

def run(d, T, dt=0):
    p = load(d)
    p.run(T, dt)
    return records(p)


def same(res, a, b, mapping, tol, oracle="rewritten", what=""):
    require(res, "probes", {mapping.get(n, n) for n in a} == set(b), f"probes {sorted(b)} for {sorted(a)}")
    top = {k: max([np.max(np.abs(v)) for q, _, v in a.values() if q == k and v.size] or [0]) for k in ("voltage", "current")}
    if not np.isfinite(sum(top.values())):
        raise Inconclusive("diverged")
    if not any(top.values()):
        raise Inconclusive("nothing was recorded")
    scale = {"voltage": max(top["voltage"], 2e-3*top["current"]), "current": max(top["current"], 2e-7*top["voltage"])}
    for n, (kind, t, v) in a.items():
        k2, t2, v2 = b[mapping.get(n, n)]
        require(res, "shape", k2 == kind and v2.shape == v.shape and t2.shape == t.shape, f"probe {n}: {k2} {v2.shape}, was {kind} {v.shape}")
        if tol == 0:
            require(res, oracle, np.array_equal(t, t2) and np.array_equal(v, v2), f"{what}: records of probe {n} differ by {np.max(np.abs(v-v2))}")
        else:
            require(res, "times", np.allclose(t, t2, rtol=1e-9, atol=0), f"{what}: times of probe {n} differ")
            expect(res, oracle, np.max(np.abs(v - v2), initial=0.0)/scale[kind], tol, f"{what}: record of probe {n}")
        res.count("values compared", v.size)


def some_document(rng):
    return shape(rng, str(rng.choice(["single", "nested", "along", "ends", "junction", "everything"])))


def rewritten(rng, res, which):
    B = some_document(rng)
    p = B.problem
    d = B.document()
    T = (min(p.steps, 120) + .5)*p.dt
    dt = p.dt
    if rng.random() < .4:
        dt = 0
        from lib.spec import default_dt
        T = (min(p.steps, 120) + .5)*default_dt(p)
    d2, mapping = rewrite(rng, d, which)
    same(res, run(d, T, dt), run(d2, T, dt), mapping, 1e-9, what="+".join(which))
    for w in which:
        res.count("rewritten " + w)
    res.signature = [gen.describe(p), list(which)]
    res.sample = {"rewriting": list(which), "probes": len(B.probes), "entries": {k: len(v) for k, v in d["model"].items() if isinstance(v, list)}}


EXAMPLES = ["parser/Paul/*.smb.json", "parser/manual/*.smb.json", "parser/non_R_terminations/*.smb.json", "dispersive/*.smb.json"]


def examples():
    root = os.path.join(REPO, "python", "testData")
    return sorted(f for e in EXAMPLES for f in glob.glob(os.path.join(root, e)))


def example(rng, res):
    from src.jsonParser import Parser
    files = examples()
    if not files:
        raise Inconclusive("no example documents")
    f = files[int(rng.integers(len(files)))]
    d = json.load(open(f))
    m = d["model"]
    if not m.get("sources"):                    # driven by an external field in the tests
        node = m["terminations"][0]["coordIds"][0][0]
        m["elements"].setdefault("node", []).append(f"9999 0 1 {node}")
        m["sources"] = [{"sourceType": "TerminalSource", "type": "voltage", "elemIds": [9999],
                         "magnitude": {"type": "exp", "amplitude": 1.0, "t0": 1e-9}}]
    p = load(d)
    dt = min(b.dt for b in p.bundles)
    which = [w for w in REWRITES if rng.random() < .7] or ["numbers"]
    d2, mapping = rewrite(rng, d, which)
    size = sum(b.number_of_conductors*b.u.shape[0] for b in p.bundles)
    steps = int(max(90, min(150, 30000/size), 1.15*max(b.u.shape[0] for b in p.bundles)))
    p.run((steps + .5)*dt)
    a = records(p)
    b = run(d2, (steps + .5)*dt)
    same(res, a, b, mapping, 1e-6, what=f"{os.path.basename(f)}: {which}")
    for w in which:
        res.count("rewritten " + w)
    res.count("example documents")
    res.signature = [os.path.basename(f), which]
    res.sample = {"document": os.path.basename(f), "rewriting": which, "steps": steps}


def twice(rng, res):
    """Two loads of one document, and of another in between, do not influence each other."""
    B, other = some_document(rng), some_document(rng)
    p = B.problem
    d = B.document()
    T = (min(p.steps, 80) + .5)*p.dt
    d0 = copy.deepcopy(d)
    a = run(d, T, p.dt)
    first, second = load(d), load(other.document())
    third = load(d)
    second.run(10.5*other.problem.dt, other.problem.dt)
    third.run(T, p.dt)
    first.run(T, p.dt)
    same(res, a, records(first), {}, 0, "identical", "loaded before another document ran")
    same(res, a, records(third), {}, 0, "identical", "loaded again")
    require(res, "document untouched", d == d0)
    res.signature = ["twice", gen.describe(p)]
    res.sample = {"probes": len(a)}


WORKER = """
import pickle, sys
sys.path.insert(0, sys.argv[1])
from checks.c10 import load, records
out = []
for d, T, dt in pickle.load(open(sys.argv[2], "rb")):
    p = load(d)
    p.run(T, dt)
    out.append(records(p))
pickle.dump(out, open(sys.argv[3], "wb"))
"""


def process(rng, res):
    """Other processes, with other hash seeds, record the same bits."""
    work = []
    for _ in range(4):
        B = some_document(rng)
        p = B.problem
        work.append((B.document(), (min(p.steps, 60) + .5)*p.dt, p.dt))
    mine = [run(*w) for w in work]
    with tempfile.TemporaryDirectory(prefix="c11_") as tmp:
        pickle.dump(work, open(os.path.join(tmp, "in"), "wb"))
        for seed in (str(int(rng.integers(1, 1000))), "random"):
            env = dict(os.environ, PYTHONHASHSEED=seed)
            subprocess.run([sys.executable, "-B", "-W", "ignore", "-c", WORKER, VERIF, os.path.join(tmp, "in"), os.path.join(tmp, "out")],
                           env=env, check=True, timeout=120, capture_output=True)
            for a, b in zip(mine, pickle.load(open(os.path.join(tmp, "out"), "rb"))):
                same(res, a, b, {}, 0, "identical", f"in a process with hash seed {seed}")
            res.count("other processes")
    res.signature = ["process", int(rng.integers(10**6))]
    res.sample = {"documents": len(work)}


def run_job(job, res):
    rng = gen.rng_of(job)
    kind = job["kind"]
    if kind in REWRITES:
        rewritten(rng, res, [kind])
    elif kind == "all":
        rewritten(rng, res, [w for w in permuted(rng, list(REWRITES)) if rng.random() < .85] or ["order"])
    else:
        {"example": example, "twice": twice, "process": process}[kind](rng, res)
