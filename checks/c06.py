"""C06: superposition, scaling, delay and rest, between executions of the real code."""
import numpy as np

from lib import doc, gen
from lib import transform as tf
from lib.build import Sim
from lib.compare import against_reference, chunks_of, scales
from lib.core import Inconclusive, expect, require

PROPERTY = "C06"
TECHNIQUE = "metamorphic runtime monitor: executions with combined, scaled, delayed and removed sources compared at every probe and step"
LEVEL_NOTE = ("Compares executions of the real code only (no model trusted); exploration over seeded random problems with all "
              "supported elements and kinds of sources.")
RULE = ("a case is one random problem run with all sources together and with parts of them, weights or delays; "
        "non-trivial when the response is not zero; distinct by shape")
ASSUMPTIONS = ["ideal shorts between nodes left out (1e10 S conductances cost digits)", "tolerance 1e-8 of the largest value (rounding)", "delayed waveforms are zero up to half a step after time zero"]
MUST_OBSERVE = {"oracle:superposition": 40, "oracle:document-rest": 10, "oracle:scaling": 20, "oracle:delay": 20, "oracle:rest": 1000}


def jobs(tier, rng):
    return gen.jobs_from({"superpose": (44, 400), "scale": (24, 200), "delay": (30, 260), "rest": (24, 200),
                          "fields": (12, 80), "document": (8, 60)}, tier, rng)


def make(rng, fields=False, max_steps=160):
    k = rng.integers(5)
    if k == 0:
        p = gen.standalone(rng, per_cell=rng.random() < .2, connectors=int(rng.integers(0, 3)), rloc=int(rng.integers(0, 2)), max_steps=max_steps, cells=(6, 16))
    elif k == 1:
        p = gen.single_bundle(rng, depth=int(rng.integers(2, 4)), transfers=2, connectors=1, local=1, max_n=2,
                              max_steps=max_steps, cells=(6, 12), end_transfers=int(rng.integers(0, 2)))
    elif k == 2:
        p = gen.single_bundle(rng, connectors=2, local=2, rloc=1, gloc=1, max_steps=max_steps)
    else:
        p = gen.junction_problem(rng, depth=int(rng.integers(1, 3)), max_n=2, max_steps=max_steps)
        if rng.random() < .5:
            local(rng, p)
    if fields:
        b = p.bundles[int(rng.integers(len(p.bundles)))]
        gen.incident_field(rng, b, p.steps*p.dt, region=rng.random() < .3, integrals=False)
    return p


def local(rng, p):
    b = p.bundles[int(rng.integers(len(p.bundles)))]
    a, e = sorted(rng.uniform(0, 1, size=2))
    if e - a > 1e-3:
        b.local.append((b.at(a), b.at(e), int(rng.integers(b.n)), gen.waveform(rng, p.steps*p.dt)))


def simulate(p, rng):
    return Sim(p).run(chunks_of(rng, p.steps))


def combine(parts):
    out = {}
    for w, h in parts:
        for n, (V, I) in h.items():
            if n in out:
                out[n] = (out[n][0] + w*V, out[n][1] + w*I)
            else:
                out[n] = (w*V, w*I)
    return out


def run_job(job, res):
    rng = gen.rng_of(job)
    kind = job["kind"]
    if kind == "document":
        return document(rng, res)
    p = make(rng, fields=kind == "fields" or rng.random() < .1, max_steps=160 if kind != "fields" else 60)
    n = tf.count_sources(p)
    if n == 0:
        raise Inconclusive("no source")
    if kind in ("superpose", "fields"):
        whole = simulate(p, rng)
        side = rng.integers(0, 2, size=n) if n > 1 else np.array([0])
        if n > 1 and side.min() == side.max():
            side[int(rng.integers(n))] ^= 1
        w = rng.uniform(-2, 2, size=2)

        def only(group, weight):
            return tf.map_sources(p, lambda k, f: tf.weighted(f, weight) if side[k] == group else None,
                                  lambda k, fs: tf.field_weighted(fs, weight) if side[k] == group else None)
        a, b = simulate(only(0, 1.0), rng), simulate(only(1, 1.0), rng)
        against_reference(res, combine([(1, a), (1, b)]), whole, 1e-8, "superposition")
        both = simulate(tf.map_sources(p, lambda k, f: tf.weighted(f, float(w[side[k]])),
                                       lambda k, fs: tf.field_weighted(fs, float(w[side[k]]))), rng)
        ref = combine([(w[0], a), (w[1], b)])
        against_reference(res, both, ref, 1e-8, "superposition", need_signal=False)
        res.signature = [gen.describe(p), n]
        res.sample = {"sources": n, "max": scales(whole)}
    elif kind == "scale":
        whole = simulate(p, rng)
        k = float(rng.choice([-1, 1])*10**(rng.uniform(-6, 6) if rng.random() < .4 else rng.choice([-1, 1])*rng.uniform(6, 18)))
        other = simulate(tf.map_sources(p, lambda j, f: tf.weighted(f, k), lambda j, fs: tf.field_weighted(fs, k)), rng)
        against_reference(res, combine([(1/k, other)]), whole, 1e-8, "scaling")
        res.signature = gen.describe(p)
        res.sample = {"factor": k, "max": scales(whole)}
    elif kind == "delay":
        h = p.dt

        def smooth_start(f):
            t1 = 4*h
            return lambda t: 0.0 if t < h/2 else f(t)*min(1.0, (t - h/2)/t1)
        p = tf.map_sources(p, lambda k, f: smooth_start(smooth(f, p.steps*h, rng)), lambda k, fs: None)
        if tf.count_sources(p) == 0:
            raise Inconclusive("no source")
        m = int(rng.integers(1, 12))
        first = simulate(p, rng)
        q = tf.map_sources(p, lambda k, f: tf.delayed(f, m*h))
        q.steps = p.steps + m
        second = simulate(q, rng)
        for name, (V, I) in second.items():
            require(res, "delay-rest", not np.any(V[:m]) and not np.any(I[:m]), f"{name} is not at rest before the delayed source starts")
        against_reference(res, {n: (V[m:], I[m:]) for n, (V, I) in second.items()}, first, 1e-8, "delay")
        res.signature = [gen.describe(p), m]
        res.sample = {"delay in steps": m, "max": scales(first)}
    else:
        q = tf.map_sources(p, lambda k, f: None, lambda k, fs: None)
        zero = simulate(q, rng)
        for name, (V, I) in zero.items():
            require(res, "rest", not np.any(V) and not np.any(I), f"{name} moves without any source: {np.max(np.abs(V))}")
            res.count("oracle:rest", V.size + I.size)
        silent = simulate(tf.map_sources(p, lambda k, f: (lambda t: 0.0), lambda k, fs: tf.field_weighted(fs, 0.0)), rng)
        for name, (V, I) in silent.items():
            require(res, "silent", not np.any(V) and not np.any(I), f"{name} moves although every source is zero")
        res.signature = gen.describe(p)


def document(rng, res):
    """A document without sources stays at rest, whether its list is empty or missing; so does one of zero amplitude."""
    from checks.c10 import load, records
    B = doc.make(rng, bundles=int(rng.integers(1, 4)), depth=int(rng.integers(1, 4)), lumped=2, ends=rng.random() < .5, max_steps=60,
                 distributed=int(rng.integers(0, 2)), source=str(rng.choice(["trapezoidal", "ramp", "gaussian_2", "sin", "sin_sq", "exp"])))
    d = B.document()
    style = int(rng.integers(3))
    if style == 0:
        del d["model"]["sources"]
    elif style == 1:
        d["model"]["sources"] = []
    else:
        for s in d["model"]["sources"]:
            s["magnitude"]["amplitude"] = 0.0
    p = B.problem
    parser = load(d)
    parser.run((p.steps + .5)*p.dt, p.dt)
    for name, (kind, t, val) in records(parser).items():
        require(res, "document-rest", len(t) == p.steps and len(val) == p.steps and not np.any(val),
                f"{name}: {len(t)} samples of {p.steps}, largest {np.max(np.abs(val), initial=0.0)} without any source")
        res.count("oracle:rest", val.size)
    res.signature = [gen.describe(p), style]


def smooth(f, T, rng):
    """A continuous waveform (delayed copies must not straddle a jump)."""
    A, w = float(rng.choice([-1, 1])*10**rng.uniform(-1, 1)), 2*np.pi/T*rng.uniform(1, 6)
    return lambda t: A*np.sin(w*t)
