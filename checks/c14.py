"""C14: dispersive connectors: recorded drop against the exact convolution with the specified impedance,
the reference simulator, transmission-line theory, and equivalent constant or inductive descriptions."""
import numpy as np
from scipy.linalg import expm

from lib import fd, gen, refsim, staged
from lib import transform as tf
from lib.build import Sim
from lib.compare import against_reference, chunks_of, scales, simulate_and_compare
from lib.core import Inconclusive, expect, require
from lib.spec import Model

PROPERTY = "C14"
TECHNIQUE = "runtime monitor: the drop over every segment, recomputed from recorded voltages and currents, against the exact convolution of the current with the specified impedance; reference simulator; Laplace-domain and equivalent-description oracles"
LEVEL_NOTE = "Observes every segment and step of seeded random lines and bundles with up to eight connectors of up to six poles; exploration."
RULE = "a case is one line or bundle with its connectors; non-trivial when current flows through a connector; distinct by shape and models"
ASSUMPTIONS = ["one connector per conductor and segment (more are rejected, C22)", "poles with negative real part",
               "convolution tolerance 1e-6 of the largest drop"]
MUST_OBSERVE = {"oracle:drop": 60, "oracle:reference": 60, "oracle:constant": 8, "oracle:inductive": 8, "oracle:theory": 8,
                "oracle:placement": 8, "connectors observed": 60, "oracle:later": 8}


def jobs(tier, rng):
    return gen.jobs_from({"line": (36, 320), "bundle": (24, 220), "network": (12, 100), "constant": (14, 100), "inductive": (14, 100),
                          "theory": (12, 90), "placement": (16, 120), "poles": (20, 180), "order": (12, 100), "long": (4, 24), "later": (14, 110)}, tier, rng)


def respond(model, current, dt):
    """Drop over the impedance at the voltage steps (currents are known half a step before and after), the memory
    taken at the later of the two.  The pole terms are integrated with a matrix exponential over each linear piece."""
    prev = np.concatenate([[0.0], current[:-1]])
    out = model.cte*(current + prev)/2 + model.prop*(current - prev)/dt
    for p, r in zip(model.poles, model.residues):
        # d/dt (x, i, slope): x' = p x + r i, i' = slope
        M = np.array([[p, r, 0], [0, 0, 1], [0, 0, 0]], dtype=complex)
        E = expm(M*dt)[0]
        x = 0j
        drop = np.empty(len(current), dtype=complex)
        for k in range(len(current)):
            x = E[0]*x + E[1]*prev[k] + E[2]*(current[k] - prev[k])/dt
            drop[k] = x
        out = out + drop.real
    return out


def drops(p, got, b):
    """Series drop in excess of the line's own inductance and resistance, per segment and conductor."""
    rb = refsim.RefBundle(b, p.dt)
    V, I = got[b.name]
    old = np.concatenate([np.zeros((1,) + I.shape[1:]), I[:-1]])
    E = -np.diff(V, axis=2)
    for k in range(rb.K):
        E[:, :, k] -= rb.du[k]*((I[:, :, k] - old[:, :, k]) @ rb.L[k].T/p.dt + (I[:, :, k] + old[:, :, k]) @ rb.R[k].T/2)
    return E, rb


def check_drops(res, p, got, oracle="drop"):
    for b in p.bundles:
        if b.local or b.fields or b.transfers:
            continue
        E, rb = drops(p, got, b)
        expected = np.zeros_like(E)
        where = set()
        for ln in b.lines:
            o = b.offset(ln)
            for c, x, m in ln.connectors:
                k = min(refsim._nearest(rb.u, x), rb.K-1)
                where.add((o+c, k))
                expected[:, o+c, k] = respond(m, got[b.name][1][:, o+c, k], p.dt)
                if np.max(np.abs(got[b.name][1][:, o+c, k])) > 0:
                    res.count("connectors observed")
        scale = max(np.max(np.abs(expected)), np.max(np.abs(got[b.name][0])))
        if scale == 0:
            continue
        err = np.abs(E - expected)
        w = np.unravel_index(np.argmax(err), err.shape)
        expect(res, oracle, err[w]/scale, 1e-6,
               f"step {w[0]}, conductor {w[1]}, segment {w[2]} ({'a' if (w[1], w[2]) in where else 'no'} connector): drop {E[w]:.6g}, "
               f"specified impedance gives {expected[w]:.6g}")
        res.count("drops compared", E.size)


def run_job(job, res):
    rng = gen.rng_of(job)
    kind = job["kind"]
    if kind == "later":                        # connectors added between runs, and runs of other time steps
        p = gen.standalone(rng, per_cell=rng.random() < .2, connectors=int(rng.integers(2, 6)), max_steps=200) if rng.random() < .7 else \
            gen.single_bundle(rng, depth=int(rng.integers(1, 3)), connectors=3, max_n=2, rich=False, max_steps=160)
        staged.run(rng, res, p, ("connectors", "step"), oracle="later")
        res.signature = gen.describe(p)
        return
    if kind in ("line", "long", "theory", "poles", "order"):
        long = dict(transits=30, max_steps=2500, cells=(6, 10)) if kind == "long" else {}
        fine = dict(cells=(26, 36), transits=4.0, max_steps=500, n=int(rng.integers(1, 3))) if kind == "theory" else {}
        p = gen.standalone(rng, connectors=int(rng.integers(1, 7)) if kind != "theory" else int(rng.integers(1, 4)),
                           per_cell=kind == "line" and rng.random() < .2, rloc=int(rng.integers(0, 2)), **(long or fine or {"max_steps": 250}))
        if kind == "poles":
            b = p.bundles[0]
            ln = b.lines[0]
            z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
            ln.connectors = [(c, x, gen.model(rng, z, p.steps*p.dt, poles=int(rng.integers(2, 7)))) for c, x, _ in ln.connectors]
            for c, x, m in ln.connectors:
                if rng.random() < .5:
                    m.cte = m.prop = 0.0
    elif kind == "bundle":
        p = gen.single_bundle(rng, depth=int(rng.integers(1, 4)), connectors=3, max_n=3, rloc=int(rng.integers(0, 2)))
    elif kind == "network":
        p = gen.junction_problem(rng, max_n=2, depth=int(rng.integers(1, 3)))
        for b in p.bundles:
            for ln in b.lines:
                gen.add_connectors(rng, b, ln, int(rng.integers(0, 3)), np.sqrt(ln.l[0, 0]/ln.c[0, 0]), p.steps*p.dt)
    elif kind == "placement":
        return placement(rng, res)
    else:
        return equivalent(kind, rng, res)
    if not any(ln.connectors for b in p.bundles for ln in b.lines):
        b = p.bundles[0]
        gen.add_connectors(rng, b, b.lines[0], 1, np.sqrt(b.lines[0].l[0, 0]/b.lines[0].c[0, 0]), p.steps*p.dt)
    sim, got, ref = simulate_and_compare(res, p, rng, tol=1e-7)
    check_drops(res, p, got)
    if kind == "theory":
        fd.compare(res, p, got, rng, oracle="theory", tol=0.12)
    if kind == "order":
        q = tf.clone(p)
        for b in q.bundles:
            for ln in b.lines:
                ln.connectors = [ln.connectors[k] for k in rng.permutation(len(ln.connectors))]
                for _, _, m in ln.connectors:
                    # terms of a model in another order, pairs given either way round
                    o = rng.permutation(len(m.poles))
                    m.poles, m.residues = [m.poles[k] for k in o], [m.residues[k] for k in o]
        against_reference(res, Sim(q).run(chunks_of(rng, p.steps)), got, 1e-9, "order")
    res.signature = [gen.describe(p), [[c, round(m.cte, 6), len(m.poles)] for b in p.bundles for ln in b.lines for c, _, m in ln.connectors]]
    res.sample = {"connectors": [[c, m.doc()] for b in p.bundles for ln in b.lines for c, _, m in ln.connectors][:2], "max": scales(ref)}


def placement(rng, res):
    """Between two nodes the nearest counts; at the far end the last segment; only there."""
    p = gen.standalone(rng, max_steps=150)
    b = p.bundles[0]
    ln = b.lines[0]
    u = b.nodes()
    K = len(u) - 1
    z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
    used = set()
    for _ in range(int(rng.integers(1, 4))):
        k = int(rng.choice([0, K, int(rng.integers(0, K+1)), int(rng.integers(0, K+1))]))
        c = int(rng.integers(ln.n))
        if (min(k, K-1), c) in used:
            continue
        used.add((min(k, K-1), c))
        near = [j for j in (k-1, k+1) if 0 <= j <= K]
        x = u[k] + float(rng.uniform(0, .45))*(u[int(rng.choice(near))] - u[k])
        m = gen.model(rng, z, p.steps*p.dt)
        ln.connectors.append((c, x, m))
    sim = Sim(p)
    got = sim.run(chunks_of(rng, p.steps))
    # the drops themselves, independent of the reference: each at the place named above
    E, rb = drops(p, got, b)
    I = got[b.name][1]
    expected = np.zeros_like(E)
    for (k, c), (_, _, m) in zip(sorted(used, key=lambda q: [i for i, (cc, x, _) in enumerate(ln.connectors)
                                                             if cc == q[1] and min(refsim._nearest(u, x), K-1) == q[0]][0]), ln.connectors):
        expected[:, c, k] = respond(m, I[:, c, k], p.dt)
    scale = max(np.max(np.abs(expected)), np.max(np.abs(got[b.name][0])))
    err = np.abs(E - expected)
    w = np.unravel_index(np.argmax(err), err.shape)
    expect(res, "placement", err[w]/scale, 1e-6, f"conductor {w[1]}, segment {w[2]}, connectors at {sorted(used)}: drop {E[w]:.6g} for {expected[w]:.6g}")
    res.signature = [gen.describe(p), sorted(used)]


def equivalent(kind, rng, res):
    """A constant impedance is a localized resistance; a proportional one is more inductance in that segment."""
    p = gen.standalone(rng, max_steps=200) if rng.random() < .6 else gen.single_bundle(rng, depth=int(rng.integers(1, 3)), max_steps=200)
    q = tf.clone(p)
    count = int(rng.integers(1, 4))
    for b, bq in zip(p.bundles, q.bundles):
        u, du = b.nodes(), b.seglen()
        K = len(du)
        ks = rng.permutation(K)[:count]
        for k in ks:
            li = int(rng.integers(len(b.lines)))
            ln, lq = b.lines[li], bq.lines[li]
            z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
            c = int(rng.integers(ln.n))
            if kind == "constant":
                R = float(z*10**rng.uniform(-1, 1))
                own = ln.r[c, c]*(1.0 if ln.percell is None else ln.percell["r"][k])
                ln.connectors.append((c, u[k], Model(R)))
                bq.rloc.append((u[k], u[k+1], b.offset(ln) + c, R + own*du[k]))
            elif ln.n == 1:
                Lx = float(z*p.steps*p.dt*10**rng.uniform(-3, -1))
                if lq.percell is None:
                    lq.percell = {"l": np.ones(K), "c": np.ones(K+1), "r": np.ones(K), "g": np.ones(K+1)}
                ln.connectors.append((0, u[k], Model(0.0, Lx)))
                lq.percell["l"][k] += Lx/du[k]/ln.l[0, 0]
    if kind == "inductive" and not any(ln.connectors for ln in p.bundles[0].lines):
        return equivalent_single(rng, res)
    a, c = Sim(p).run(chunks_of(rng, p.steps)), Sim(q).run(chunks_of(rng, p.steps))
    against_reference(res, a, c, 1e-8, kind)
    res.signature = [gen.describe(p), kind]


def equivalent_single(rng, res):
    p = gen.standalone(rng, n=1, max_steps=200)
    q = tf.clone(p)
    b, ln, lq = p.bundles[0], p.bundles[0].lines[0], q.bundles[0].lines[0]
    u, du = b.nodes(), b.seglen()
    K = len(du)
    lq.percell = {"l": np.ones(K), "c": np.ones(K+1), "r": np.ones(K), "g": np.ones(K+1)}
    z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
    for k in rng.permutation(K)[:int(rng.integers(1, 4))]:
        Lx = float(z*p.steps*p.dt*10**rng.uniform(-3, -1))
        ln.connectors.append((0, u[k], Model(0.0, Lx)))
        lq.percell["l"][k] += Lx/du[k]/ln.l[0, 0]
    a, c = Sim(p).run(chunks_of(rng, p.steps)), Sim(q).run(chunks_of(rng, p.steps))
    against_reference(res, a, c, 1e-8, "inductive")
    res.signature = [gen.describe(p), "inductive"]
