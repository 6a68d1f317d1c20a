"""C08: rewritten models (moved, reversed, renumbered, rescaled) against the original, real code on both sides."""
import numpy as np

from lib import gen
from lib import transform as tf
from lib.build import Sim
from lib.compare import against_reference, chunks_of, scales
from lib.core import Inconclusive, expect

PROPERTY = "C08"
TECHNIQUE = "metamorphic runtime monitor: moved, reversed, renumbered and rescaled models compared at every node, segment and step"
LEVEL_NOTE = "Compares executions of the real code only; exploration over seeded random problems and transformations."
RULE = ("a case is one random problem and one transformation of it; non-trivial when excited; distinct by shape")
ASSUMPTIONS = ["tolerance 1e-7 of the largest value", "ideal shorts left out of impedance scaling"]
MUST_OBSERVE = {"oracle:moved": 40, "oracle:reversed": 40, "oracle:renumbered": 40, "oracle:impedance": 20, "oracle:stretched": 20}


def jobs(tier, rng):
    return gen.jobs_from({"moved": (26, 220), "reversed": (32, 260), "renumbered": (32, 260), "impedance": (20, 160),
                          "stretched": (16, 140), "moved-field": (8, 60), "axis": (8, 60)}, tier, rng)


def make(rng, max_steps=180):
    k = rng.integers(5)
    if k == 0:
        return gen.standalone(rng, per_cell=rng.random() < .2, connectors=int(rng.integers(0, 3)), rloc=1, max_steps=max_steps)
    if k == 1:
        return gen.single_bundle(rng, depth=int(rng.integers(2, 4)), transfers=2, connectors=1, local=1, rloc=1,
                                 max_n=3, max_steps=max_steps, cells=(6, 12), end_transfers=int(rng.integers(0, 2)))
    if k == 2:
        return gen.single_bundle(rng, max_n=4, connectors=2, local=2, rloc=1, gloc=1, max_steps=max_steps)
    p = gen.junction_problem(rng, depth=int(rng.integers(1, 3)), max_n=3, max_steps=max_steps)
    for b in p.bundles:
        for ln in b.lines:
            gen.add_connectors(rng, b, ln, int(rng.integers(0, 2)), np.sqrt(ln.l[0, 0]/ln.c[0, 0]), p.steps*p.dt)
    return p


def extended(p):
    """Zero-length resistances occupy the segment after their node, so give them both of its nodes."""
    for b in p.bundles:
        u = b.nodes()
        K = len(u) - 1
        out = []
        for s, e, c, x in b.rloc:
            i = min(int(np.argmin(np.linalg.norm(u - s, axis=1))), K-1)
            j = int(np.argmin(np.linalg.norm(u - e, axis=1)))
            out.append((u[i].copy(), u[max(j, i+1)].copy(), c, x))
        b.rloc = out
        b.gloc = [(u[int(np.argmin(np.linalg.norm(u - s, axis=1)))].copy(), u[int(np.argmin(np.linalg.norm(u - e, axis=1)))].copy(), c, x)
                  for s, e, c, x in b.gloc]
    return p


def go(p, rng):
    return Sim(p).run(chunks_of(rng, p.steps))


def run_job(job, res):
    rng = gen.rng_of(job)
    kind = job["kind"]
    if kind == "moved-field":
        return moved_field(rng, res)
    p = extended(make(rng))
    if kind == "impedance":
        for net in p.nets:
            net.elements = [e for e in net.elements if e[0] != "short"]
        gen.ensure_source(rng, p, p.steps*p.dt) if not p.standalone else None
    base = go(p, rng)
    if kind == "moved":
        names = [b.name for b in p.bundles if rng.random() < .7] or [p.bundles[0].name]
        size = max(b.length for b in p.bundles)
        q = tf.move(p, tf.rotation(rng), rng.normal(size=3)*size*float(rng.choice([0, 1, 5])), names)
        against_reference(res, go(q, rng), base, 1e-7, "moved")
    elif kind == "axis":
        # laid along exactly one coordinate axis, in either direction
        for b in p.bundles:
            seg = np.linalg.norm(np.diff(b.points, axis=0), axis=1)
            along = [np.concatenate([[0], np.cumsum(seg)])]
            d = np.zeros(3)
            d[rng.integers(3)] = rng.choice([-1.0, 1.0])
            old = b.nodes()
            arc = np.concatenate([[0], np.cumsum(b.seglen())])
            straight = np.outer(along[0], d)

            def place(x, old=old, arc=arc, d=d):
                from lib.refsim import _arc
                return _arc(x, old)*d
            for ln in b.lines:
                ln.connectors = [(c, place(x), m) for c, x, m in ln.connectors]
            for key in ("local", "rloc", "gloc"):
                setattr(b, key, [(place(s), place(e), c, x) for s, e, c, x in getattr(b, key)])
            b.points = straight
        against_reference(res, go(p, rng), base, 1e-7, "moved")
    elif kind == "reversed":
        names = [b.name for b in p.bundles if rng.random() < .6] or [p.bundles[-1].name]
        q = tf.reverse(p, names)
        against_reference(res, tf.unreverse(go(q, rng), names), base, 1e-7, "reversed")
    elif kind == "renumbered":
        q, orders = tf.permute(p, rng)
        against_reference(res, go(q, rng), {n: (V[:, orders[n]], I[:, orders[n]]) for n, (V, I) in base.items()}, 1e-7, "renumbered")
    elif kind == "impedance":
        k = float(10**rng.uniform(-5, 5))
        got = go(tf.scale_impedance(p, k), rng)
        against_reference(res, {n: (V, I*k) for n, (V, I) in got.items()}, base, 1e-7, "impedance")
    elif kind == "stretched":
        s = float(10**rng.uniform(-2, 2))
        got = go(tf.stretch(p, s), rng)
        against_reference(res, got, base, 1e-7, "stretched")
    res.signature = gen.describe(p)
    res.sample = {"problem": res.signature, "max": scales(base)}


def moved_field(rng, res):
    """The incident field moves along with the structure."""
    import sympy as sp
    p = gen.single_bundle(rng, cells=(5, 8), max_n=2, max_steps=40, sources=False)
    b = p.bundles[0]
    fs = gen.incident_field(rng, b, p.steps*p.dt, integrals=False if rng.random() < .7 else True)
    base = go(p, rng)
    Q, shift = tf.rotation(rng), rng.normal(size=3)*b.length
    q = tf.move(p, Q, shift)
    f2 = q.bundles[0].fields[0]
    fs0 = b.fields[0]

    def fn(x, y, z, t, v):
        X = Q.T @ (np.array([x, y, z], float) - shift)
        return tuple(Q @ np.array(fs0.fn(*X, t, v), float))

    def sym():
        X = sp.symbols("x y z")
        r = [sum(float(Q[k, j])*(X[k] - float(shift[k])) for k in range(3)) for j in range(3)]
        e = [sp.sympify(c).subs(dict(zip(X, r)), simultaneous=True) for c in fs0.sym()]
        return tuple(sum(float(Q[j, k])*e[k] for k in range(3)) for j in range(3))
    f2.fn, f2.sym = fn, sym
    f2.distances = {b.name: fs0.distances[b.name] @ Q.T}
    against_reference(res, go(q, rng), base, 1e-6, "moved")
    res.signature = [gen.describe(p), fs.style]
