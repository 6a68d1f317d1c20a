"""C10: a document simulates the structure it describes.

Documents and the structures they describe are generated together; the document is loaded and run by the
real code, the structure by the reference model, and every probe's record is compared at every sample."""
import os
import tempfile

import numpy as np

from lib import doc, gen, refsim
from lib.core import Inconclusive, expect, require
from lib.spec import default_dt

PROPERTY = "C10"
TECHNIQUE = "differential runtime monitor: random documents loaded and run by the real code, probe records compared sample by sample with a reference simulation of the described structure"
LEVEL_NOTE = "Exploration over seeded random documents; the reference model shares no code with the repository."
RULE = "a case is one document and one run of it; non-trivial when a probe recorded a signal; distinct by structure"
ASSUMPTIONS = ["a level's conductors are ordered by first mention in the nesting", "sources of a united pair drive its first node",
               "tolerance 1e-6 of the largest value, 1e-2 where ends are joined by ideal shorts (1e10 S in the code)"]
MUST_OBSERVE = {"oracle:probe record": 120, "oracle:probe times": 120, "probes compared": 120, "documents with nesting": 25,
                "documents with junctions": 20, "terminal sources": 40, "distributed sources": 10, "lumped elements": 10,
                "cable ends": 10, "oracle:names": 40}

SHAPES = {
    "single": dict(bundles=1, depth=1),
    "nested": dict(bundles=1, depth=(2, 3)),
    "along": dict(bundles=1, depth=(1, 2), lumped=3, distributed=2),
    "ends": dict(bundles=1, depth=(2, 3), ends=True),
    "junction": dict(bundles=(2, 4), depth=(1, 2)),
    "short": dict(bundles=(2, 3), depth=1, shorts=True),
    "everything": dict(bundles=(1, 3), depth=(1, 3), lumped=2, distributed=1, ends=True),
}


def jobs(tier, rng):
    return gen.jobs_from({"single": (18, 150), "nested": (18, 150), "along": (16, 150), "ends": (16, 150), "junction": (18, 150),
                          "short": (8, 80), "everything": (20, 250), "field": (10, 40), "series": (2, 4), "joint": (2, 4)}, tier, rng)


def pick(rng, v):
    return int(rng.integers(v[0], v[1]+1)) if isinstance(v, tuple) else v


def shape(rng, kind):
    s = {k: pick(rng, v) for k, v in SHAPES[kind].items()}
    return doc.make(rng, **s)


def load(d, **kw):
    from src.jsonParser import Parser
    with tempfile.TemporaryDirectory(prefix="c10_") as tmp:
        return Parser(doc.write(os.path.join(tmp, "model.smb.json"), d))


def records(parser):
    return {name: (p.type, np.array(p.t), np.array(p.val)) for name, p in parser.probes.items()}


def expected(B, ref, times):
    out = {}
    for name, (bname, kind, k) in B.probes.items():
        V, I = ref[bname]
        if kind == "voltage":
            out[name] = (kind, times, V[:, :, k])
        else:
            out[name] = (kind, times + B.problem.dt/2, I[:, :, min(k, I.shape[2]-1)])
    return out


def compare(res, B, got, ref, times, tol):
    want = expected(B, ref, times)
    require(res, "names", set(got) == set(want), f"probes {sorted(got)}, named {sorted(want)}")
    sv = max(np.max(np.abs(v)) for v, _ in ref.values())
    si = max(np.max(np.abs(i)) for _, i in ref.values())
    if not (np.isfinite(sv) and np.isfinite(si)):
        raise Inconclusive("the reference diverged")
    if sv == 0:
        raise Inconclusive("nothing was excited")
    scale = {"voltage": max(sv, 2e-3*si), "current": max(si, 2e-7*sv)}
    for name, (kind, t, val) in want.items():
        gk, gt, gv = got[name]
        require(res, "kind", gk == kind, f"probe {name}: {gk}, expected {kind}")
        require(res, "shape", gv.shape == val.shape and gt.shape == t.shape,
                f"probe {name}: {gv.shape} samples at {gt.shape} times, expected {val.shape} and {t.shape}")
        expect(res, "probe times", np.max(np.abs(gt - t))/B.problem.dt, 1e-6, f"probe {name}")
        err = np.where(np.isfinite(gv), np.abs(gv - val), np.inf)
        w = np.unravel_index(np.argmax(err), err.shape)
        expect(res, "probe record", err[w]/scale[kind], tol,
               f"probe {name} ({kind} at {B.probes[name]}), sample {w[0]}, conductor {w[1]}: got {gv[w]:.9g}, structure gives {val[w]:.9g} (scale {scale[kind]:.3g})")
        res.count("probes compared")
        res.count("values compared", gv.size)
        res.count("nonzero values compared", int(np.count_nonzero(np.abs(val) > 1e-9*scale[kind])))


def observe(res, B):
    m = B.m
    res.count("documents with nesting", any(isinstance(b["nestedElemIds"], dict) for b in m["bundles"]))
    res.count("documents with junctions", "junctions" in m)
    res.count("terminal sources", sum(s["sourceType"] == "TerminalSource" for s in m.get("sources", [])))
    res.count("distributed sources", sum(s["sourceType"] == "DistributedSource" for s in m.get("sources", [])))
    res.count("lumped elements", len(m.get("lumpedElements", [])))
    res.count("cable ends", len(m.get("cableEnds", [])))
    res.count("cables", len(m["cables"]))
    for s in m.get("sources", []):
        res.count("magnitude " + s["magnitude"]["type"])


def document(rng, res, kind):
    B = shape(rng, kind)
    p = B.problem
    d = B.document()
    auto = rng.random() < .5
    if auto:                                   # the code's own choice of time step
        p.dt = default_dt(p)
        p.steps = min(p.steps, 300)
    ref, times = refsim.run(p)
    parser = load(d)
    if auto:
        parser.run((p.steps + .5)*p.dt)
    else:
        parser.run((p.steps + .5)*p.dt, p.dt)
    compare(res, B, records(parser), ref, times, 1e-2 if kind == "short" else 1e-6)
    observe(res, B)
    res.signature = [gen.describe(p), sorted(x["type"] for x in d["model"].get("probes", []))]
    res.sample = {"bundles": len(p.bundles), "cables": len(d["model"]["cables"]), "probes": len(B.probes), "steps": p.steps,
                  "own time step": not auto}


def field(rng, res):
    """An incident field over the outermost cables of the document's bundles."""
    from src import mtl
    localized = rng.random() < .5
    B = doc.make(rng, bundles=int(rng.integers(1, 3)) if localized else 1, depth=int(rng.integers(1, 3)), max_steps=50,
                 transits=1.5)
    p = B.problem
    b = p.bundles[int(rng.integers(len(p.bundles)))]
    auto = rng.random() < .4
    if auto:
        p.dt = default_dt(p)
    fs = gen.incident_field(rng, b, p.steps*p.dt, region=localized, integrals=False)
    ref, times = refsim.run(p)
    parser = load(B.document())
    f = mtl.Field(*fs.sym())
    args = ((p.steps + .5)*p.dt, 0 if auto else p.dt)
    if localized:
        parser.runWithLocalizedExternalField(*args, b.name, f, fs.distances[b.name], [np.array(x) for x in fs.region])
    else:
        parser.runWithExternalField(*args, f, fs.distances[b.name])
    compare(res, B, records(parser), ref, times, 1e-6)
    res.count("external fields")
    res.signature = [gen.describe(p), localized]
    res.sample = {"localized": localized, "steps": p.steps}


def small(connectors, joint=None, zc=50.0):
    """One wire (or two, joined end to end), 1 m each, driven by 1 V at its beginning."""
    n = 2 if joint else 1
    m = {"materials": [{"materialId": 1, "name": "w", "materialType": "Wire", "inductance": zc/2e8, "capacitance": 1/(zc*2e8), "resistance": 0.0}],
         "coordinates": [], "elements": {"line": [], "node": []}, "bundles": [], "cables": [], "probes": [], "terminations": [], "sources": []}
    for k, c in enumerate(connectors):
        m["materials"].append(dict(materialId=10+k, name=f"c{k}", materialType="Connector", **c))
    for q in range(n):
        m["coordinates"] += [f"{2*q+1} {float(q)} 0.0 0.0", f"{2*q+2} {float(q+1)} 0.0 0.0"]
        m["elements"]["line"].append(f"{q+1} 1 1 {2*q+1} {2*q+2}")
        m["bundles"].append({"name": f"b{q}", "nestedElemIds": f"{q+1}"})
        m["cables"].append({"name": f"w{q}", "materialId": 1, "initialConnectorId": 10+2*q, "endConnectorId": 11+2*q, "elemIds": [q+1], "ndiv": [8]})
    m["elements"]["node"] += ["91 0 1 1", f"92 0 1 {2*n}"]
    m["terminations"] += [{"name": "t0", "coordIds": [[1]]}, {"name": "t1", "coordIds": [[2*n]]}]
    if joint:
        m["junctions"] = [{"name": "j", "unitedCoordIds": [[2, 3]]}]
    m["sources"].append({"sourceType": "TerminalSource", "type": "voltage", "elemIds": [91],
                         "magnitude": {"type": "ramp", "amplitude": 1.0, "t0": 2e-9}})
    m["probes"].append({"name": "far", "type": "voltage", "elemIds": [92]})
    return {"model": m}


def series(rng, res):
    """A series RLC termination carries no steady current through its capacitance: the open-circuit voltage appears."""
    R = {"connectorType": "Conn_R", "resistance": 50.0}
    p = load(small([R, {"connectorType": "Conn_sRLC", "resistance": 50.0, "inductance": float(rng.uniform(1e-9, 1e-7)), "capacitance": float(rng.uniform(1e-12, 1e-11))}]))
    p.run(2e-7)
    v = p.probes["far"].val[-1, 0]
    res.sample = {"far end": float(v)}
    res.signature = "series"
    expect(res, "series", abs(v - 1.0), 2e-2, f"steady voltage over a series R-L-C termination is {v:.4f}, its capacitance blocks: 1 V")


def joint(rng, res):
    """A capacitor joining two cables passes no steady current."""
    R = {"connectorType": "Conn_R", "resistance": 50.0}
    C = {"connectorType": "Conn_C", "capacitance": float(rng.uniform(1e-12, 1e-11))}
    p = load(small([R, C, {"connectorType": "Conn_short"}, R], joint=True))
    p.run(4e-7)
    v = p.probes["far"].val[-1, 0]
    res.sample = {"far end": float(v)}
    res.signature = "joint"
    expect(res, "joint", abs(v), 2e-2, f"steady voltage beyond a capacitor joining two cables is {v:.4f}, it blocks: 0 V")


def run_job(job, res):
    rng = gen.rng_of(job)
    kind = job["kind"]
    if kind in SHAPES:
        document(rng, res, kind)
    else:
        {"field": field, "series": series, "joint": joint}[kind](rng, res)
