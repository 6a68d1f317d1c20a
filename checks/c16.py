"""C16: localized longitudinal fields: electromotive force recovered from the recorded voltages and currents of every
segment, totals, superposition over parts and with other sources, reference simulator and steady circuit."""
import numpy as np

from checks.c14 import drops
from lib import fd, gen, refsim, staged
from lib import transform as tf
from lib.build import Sim
from lib.compare import against_reference, chunks_of, scales, simulate_and_compare
from lib.core import Inconclusive, expect, require

PROPERTY = "C16"
TECHNIQUE = "runtime monitor: electromotive force of every conductor and segment, recovered from recorded voltages and currents, against field times covered length; totals, partitions, reference simulator, steady-circuit oracle"
LEVEL_NOTE = "Observes every segment, conductor and step of seeded random bundles with up to five localized sources; exploration."
RULE = "a case is one bundle and its localized sources; non-trivial when the sources act; distinct by shape and stretches"
ASSUMPTIONS = ["stretches given in the direction of the cable", "points at corners and ends of layouts that do not cross themselves"]
MUST_OBSERVE = {"oracle:force": 40, "oracle:reference": 40, "oracle:total": 40, "oracle:parts": 12, "oracle:steady": 6, "oracle:redivided": 8, "oracle:later": 8}


def jobs(tier, rng):
    return gen.jobs_from({"one": (30, 260), "several": (24, 220), "levels": (14, 120), "corners": (20, 180), "parts": (20, 160),
                          "network": (12, 100), "steady": (8, 60), "redivided": (12, 100), "theory": (6, 50), "later": (14, 110)}, tier, rng)


def stretch(rng, b):
    """Start and end as fractions of the length: nodes, inside one cell, corners, ends, anywhere."""
    seg = b.seglen()
    edges = np.concatenate([[0], np.cumsum(seg)])/np.sum(seg)
    kind = rng.integers(6)
    if kind == 0:
        i, j = sorted(rng.permutation(len(edges))[:2])
        return edges[i], edges[j]
    if kind == 1:
        k = int(rng.integers(len(seg)))
        x = sorted(rng.uniform(.05, .95, 2))
        return tuple(edges[k] + (edges[k+1] - edges[k])*np.array(x))
    if kind == 2:
        return 0.0, 1.0
    if kind == 3:
        return 0.0, float(rng.uniform(.02, 1))
    if kind == 4:
        return float(rng.uniform(0, .98)), 1.0
    a, e = sorted(rng.uniform(0, 1, 2))
    return a, max(e, a + 1e-2) if a < .98 else 1.0


def add(rng, p, b, count, conductors=None):
    T = p.steps*p.dt
    for _ in range(count):
        a, e = stretch(rng, b)
        c = int(rng.integers(b.n)) if conductors is None else int(rng.choice(conductors))
        b.local.append((b.at(a), b.at(e), c, gen.waveform(rng, T)))
        b.spans = getattr(b, "spans", []) + [(a*b.length, e*b.length)]


def force(res, p, got):
    """What drives each segment, from the records, against the field over the covered part."""
    t = np.arange(p.steps)*p.dt
    for b in p.bundles:
        if not b.local or b.fields or b.transfers or any(ln.connectors for ln in b.lines):
            continue
        E, rb = drops(p, got, b)
        edges = np.concatenate([[0], np.cumsum(b.seglen())])
        expected = np.zeros_like(E)
        total = np.zeros(E.shape[:2])
        for (s, e, c, f), (x0, x1) in zip(b.local, b.spans):
            w = np.array([(f(x + p.dt/2) + f(x - p.dt/2))/2 for x in t])
            cover = np.clip(np.minimum(x1, edges[1:]) - np.maximum(x0, edges[:-1]), 0, None)
            expected[:, c, :] -= w[:, None]*cover[None, :]
            total[:, c] += w*(x1 - x0)
        scale = max(np.max(np.abs(expected)), np.max(np.abs(got[b.name][0])))
        err = np.abs(E - expected)
        k = np.unravel_index(np.argmax(err), err.shape)
        expect(res, "force", err[k]/scale, 1e-6,
               f"step {k[0]}, conductor {k[1]}, segment {k[2]}: driven by {-E[k]:.6g}, field times covered length {-expected[k]:.6g}; spans {b.spans}")
        err = np.abs(-E.sum(axis=2) - total)
        scale = max(np.max(np.abs(total)), np.max(np.abs(got[b.name][0])))
        expect(res, "total", np.max(err)/scale, 1e-6, f"total electromotive force; spans {b.spans}, length {b.length}")
        res.count("forces compared", E.size)


def run_job(job, res):
    rng = gen.rng_of(job)
    kind = job["kind"]
    if kind == "later":                        # sources added between runs
        p = gen.single_bundle(rng, depth=int(rng.integers(1, 3)), max_n=3, sources=rng.random() < .4, max_steps=160)
        add(rng, p, p.bundles[0], int(rng.integers(2, 6)))
        staged.run(rng, res, p, ("local",), oracle="later")
        res.signature = gen.describe(p)
        return
    if kind in ("parts", "redivided", "steady"):
        return {"parts": parts, "redivided": redivided, "steady": steady}[kind](rng, res)
    src = rng.random() < .4
    if kind == "one":
        p = gen.single_bundle(rng, max_n=4, sources=src, max_steps=200)
        add(rng, p, p.bundles[0], 1)
    elif kind == "several":
        p = gen.single_bundle(rng, max_n=3, sources=src, rloc=1, max_steps=200)
        add(rng, p, p.bundles[0], int(rng.integers(2, 6)))
    elif kind == "levels":
        p = gen.single_bundle(rng, depth=int(rng.integers(2, 4)), max_n=2, transfers=int(rng.integers(0, 2)), connectors=int(rng.integers(0, 2)),
                              sources=src, max_steps=160)
        add(rng, p, p.bundles[0], int(rng.integers(1, 4)))
    elif kind == "corners":
        p = gen.single_bundle(rng, max_n=2, sources=src, max_steps=160)
        b = p.bundles[0]
        cum = np.concatenate([[0], np.cumsum(np.linalg.norm(np.diff(b.points, axis=0), axis=1))])
        T = p.steps*p.dt
        for _ in range(2):
            i = int(rng.integers(len(cum)))
            x0, x1 = sorted([cum[i], float(rng.uniform(0, cum[-1]))])
            if x1 - x0 < .02*cum[-1]:
                x0, x1 = 0.0, cum[-1]
            b.local.append((b.at(x0/b.length), b.at(x1/b.length), int(rng.integers(b.n)), gen.waveform(rng, T)))
            b.spans = getattr(b, "spans", []) + [(x0, x1)]
    elif kind == "network":
        p = gen.junction_problem(rng, max_n=2, depth=int(rng.integers(1, 3)), sources=src, max_steps=160)
        for b in p.bundles:
            add(rng, p, b, int(rng.integers(0, 3)))
        if not any(b.local for b in p.bundles):
            add(rng, p, p.bundles[0], 1)
    else:
        p = gen.single_bundle(rng, max_n=1, cells=(26, 34), media=0, sources=False, max_steps=420, transits=4.0)
        add(rng, p, p.bundles[0], int(rng.integers(1, 3)))
    sim, got, ref = simulate_and_compare(res, p, rng, tol=1e-7)
    force(res, p, got)
    if kind == "theory":
        fd.compare(res, p, got, rng, oracle="theory", tol=0.25, electrical=.1)
    res.signature = [gen.describe(p), [np.round(getattr(b, "spans", []), 4).tolist() for b in p.bundles]]
    res.sample = {"spans": res.signature[1], "max": scales(ref)}


def parts(rng, res):
    """One source over a stretch, or over its parts, or half of it twice; on several conductors one at a time."""
    p = gen.single_bundle(rng, max_n=3, sources=False, max_steps=160, depth=int(rng.integers(1, 3)))
    b = p.bundles[0]
    T = p.steps*p.dt
    add(rng, p, b, 1)
    (s, e, c, f), (x0, x1) = b.local[0], b.spans[0]
    q = tf.clone(p)
    bq = q.bundles[0]
    cuts = [x0] + sorted(rng.uniform(x0, x1, int(rng.integers(1, 4))).tolist()) + [x1]
    cuts = [x for k, x in enumerate(cuts) if k == 0 or x - cuts[k-1] > 1e-9*b.length]
    bq.local = []
    for y0, y1 in zip(cuts[:-1], cuts[1:]):
        at = [bq.at(y/bq.length) for y in (y0, y1)]
        w = float(rng.uniform(.2, .8))
        if rng.random() < .4:
            bq.local += [(at[0], at[1], c, tf.weighted(f, w)), (at[0], at[1], c, tf.weighted(f, 1-w))]
        else:
            bq.local.append((at[0], at[1], c, f))
    bq.local = [bq.local[k] for k in rng.permutation(len(bq.local))]
    a, z = Sim(p).run(chunks_of(rng, p.steps)), Sim(q).run(chunks_of(rng, p.steps))
    against_reference(res, z, a, 1e-7, "parts")
    res.signature = [gen.describe(p), len(bq.local)]


def steady(rng, res):
    """A constant field drives the current field times length over the loop's total resistance."""
    p = gen.single_bundle(rng, max_n=1, cells=(6, 12), sources=False, rich=False, lossy=False, media=0, max_steps=100)
    b = p.bundles[0]
    ln = b.lines[0]
    z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
    total = 0.0
    for net in p.nets:
        net.elements = [("R", e[1], float(z*rng.uniform(.5, 2)), None) for e in net.elements[:1]]
        total += net.elements[0][2]
    ln.r = np.array([[float(z/b.length*rng.uniform(0, .5))]])
    total += ln.r[0, 0]*b.length
    T = b.length/gen.vmin(ln)
    emf = 0.0
    for _ in range(int(rng.integers(1, 4))):
        a, e = stretch(rng, b)
        A = float(rng.normal())*10
        b.local.append((b.at(a), b.at(e), 0, gen.ramp(A, 3*T)))
        emf += A*(e - a)*b.length
    p.dt *= .9
    p.steps = int(40*T/p.dt)
    if p.steps > 6000 or emf == 0:
        raise Inconclusive("too many steps")
    V, I = Sim(p).run()[b.name]
    i = I[-200:].mean(axis=0)[0]
    scale = sum(abs(f(1e9*T))*np.linalg.norm(e - s) for s, e, c, f in b.local)/total
    expect(res, "steady", np.max(np.abs(i - emf/total))/scale, 2e-2, f"steady current {i[[0, -1]]}, circuit {emf/total}")
    res.signature = gen.describe(p)


def redivided(rng, res):
    """The response does not depend on the division beyond discretisation: total force and steady terminal currents."""
    p = gen.single_bundle(rng, max_n=1, cells=(8, 12), sources=False, rich=False, lossy=False, media=0, max_steps=100)
    b = p.bundles[0]
    ln = b.lines[0]
    z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
    T = b.length/gen.vmin(ln)
    for net in p.nets:
        net.elements = [("R", e[1], float(z*rng.uniform(.7, 1.5)), None) for e in net.elements[:1]]
    a, e = stretch(rng, b)
    b.local = [(b.at(a), b.at(e), 0, gen.gaussian(10.0, 3*T, .6*T))]
    out = []
    from lib.spec import default_dt
    for m in (1, 2, 3):
        q = tf.clone(p)
        q.bundles[0].ndiv = [int(max(1, x*m + (rng.integers(-1, 2) if x*m > 3 else 0))) for x in b.ndiv]
        q.dt = default_dt(q)*.9
        q.steps = int(8*T/q.dt)
        if q.steps > 1500:
            raise Inconclusive("too many steps")
        V, I = Sim(q).run()[b.name]
        out.append((V[:, 0, 0].sum()*q.dt, V[:, 0, -1].sum()*q.dt, I[:, 0, 0].sum()*q.dt, I[:, 0, -1].sum()*q.dt))
    out = np.array(out)
    # charges moved through the loop: exact for any division
    R = sum(net.elements[0][2] for net in p.nets)
    q = 10.0*.6*T*np.sqrt(2*np.pi)*(e - a)*b.length/R
    expect(res, "redivided", np.max(np.abs(out[:, 2:] - q))/abs(q), 2e-2, f"charge through the loop {out[:, 2:]}, expected {q}")
    res.signature = [gen.describe(p), round(a, 3), round(e, 3)]
