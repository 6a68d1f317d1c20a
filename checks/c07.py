"""C07: exchange of excitation and observation between executions of the real code."""
import numpy as np

from lib import gen
from lib import transform as tf
from lib.build import Sim
from lib.compare import chunks_of
from lib.core import Inconclusive, expect

PROPERTY = "C07"
TECHNIQUE = "metamorphic runtime monitor: source and observer exchanged between two executions, compared at every step"
LEVEL_NOTE = "Compares executions of the real code only; exploration over seeded random reciprocal structures and terminal pairs."
RULE = ("a case is one reciprocal structure and two terminals, run twice; non-trivial when the signal reached the observer; "
        "distinct by shape and terminals")
ASSUMPTIONS = ["ideal shorts between nodes left out (1e10 S conductances cost digits)", "tolerance 1e-7 of the largest value"]
MUST_OBSERVE = {"oracle:reciprocity": 60}


def jobs(tier, rng):
    return gen.jobs_from({"line": (24, 200), "bundle": (24, 200), "levels": (24, 200), "junction": (30, 250),
                          "junction-levels": (10, 80)}, tier, rng)


def make(kind, rng):
    if kind == "line":
        return gen.standalone(rng, connectors=int(rng.integers(0, 3)), rloc=1, gloc=1, max_steps=200,
                              per_cell=rng.random() < .3)
    if kind == "bundle":
        return gen.single_bundle(rng, connectors=2, rloc=1, gloc=1, sources=False, max_steps=200)
    if kind == "levels":
        p = gen.single_bundle(rng, depth=int(rng.integers(2, 4)), transfers=2, connectors=1, sources=False,
                              max_steps=200, cells=(6, 14), end_transfers=int(rng.integers(0, 2)))
        for tr in p.bundles[0].transfers:
            tr.direction = "both"
        return p
    if kind == "junction":
        return gen.junction_problem(rng, sources=False, max_steps=250)
    p = gen.junction_problem(rng, depth=2, max_n=2, sources=False, max_steps=200)
    for b in p.bundles:
        for _ in range(int(rng.integers(1, 3))):
            gen.transfer(rng, b, p.steps*p.dt)
        for tr in b.transfers:
            tr.direction = "both"
    return p


def run_job(job, res):
    rng = gen.rng_of(job)
    p = make(job["kind"], rng)
    p = tf.map_sources(p, lambda k, f: None)
    T = p.steps*p.dt
    f = gen.gaussian(1.0, T*rng.uniform(.1, .25), T*rng.uniform(.02, .06))
    if p.standalone:
        b = p.bundles[0]
        ln = b.lines[0]
        z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
        for arr in (ln.zs, ln.zl):
            arr[arr == 0] = z
        slots = [(c, s) for c in range(ln.n) for s in "SL"]
        pick = [slots[k] for k in rng.permutation(len(slots))[:2]]

        def excite(k):
            q = tf.clone(p)
            c, s = pick[k]
            r = (ln.zs if s == "S" else ln.zl)[c]
            q.bundles[0].lines[0].sources = {(c, s): tf.weighted(f, r/z)}
            return q

        def observe(h, k):
            c, s = pick[k]
            return h[b.name][0][:, c, 0 if s == "S" else -1]
    else:
        nodes = [(i, nid) for i, net in enumerate(p.nets) for nid in net.nodes
                 if not any(e[0] == "short" and e[1] == nid for e in net.elements)]
        if len(nodes) < 2:
            for net in p.nets:
                net.elements = [e for e in net.elements if e[0] != "short"]
            nodes = [(i, nid) for i, net in enumerate(p.nets) for nid in net.nodes]
        pick = [nodes[k] for k in rng.permutation(len(nodes))[:2]]
        bn, ln0, _, _ = p.nets[pick[0][0]].nodes[pick[0][1]]
        z = np.sqrt(ln0.l[0, 0]/ln0.c[0, 0])
        rs = [gen.resistor(rng, z) for _ in range(2)]
        for (i, nid), r in zip(pick, rs):
            p.nets[i].elements.append(("R", nid, r, None))

        def excite(k):
            q = tf.clone(p)
            i, nid = pick[k]
            els = q.nets[i].elements
            at = max(j for j, e in enumerate(els) if e[0] == "R" and e[1] == nid and e[2] == rs[k])
            els[at] = ("R", nid, rs[k], tf.weighted(f, rs[k]/z))
            return q

        def observe(h, k):
            i, nid = pick[k]
            bn, ln, c, s = p.nets[i].nodes[nid]
            return h[bn][0][:, p.bundle(bn).offset(ln) + c, 0 if s == "S" else -1]
    h0 = Sim(excite(0)).run(chunks_of(rng, p.steps))
    h1 = Sim(excite(1)).run(chunks_of(rng, p.steps))
    a, b_ = observe(h0, 1), observe(h1, 0)
    floor = max(np.max(np.abs(observe(h0, 0))), np.max(np.abs(observe(h1, 1))))
    scale = max(np.max(np.abs(a)), np.max(np.abs(b_)))
    if not scale > 1e-12*floor:
        res.count("terminal pairs isolated both ways")
        return
    if scale > 1e5:
        res.count("structures that are not passive (strong two-way transfer impedance) skipped")
        return
    k = int(np.argmax(np.abs(a - b_)))
    expect(res, "reciprocity", np.abs(a - b_)[k]/max(scale, 1e-6*floor), 1e-6,
           f"terminals {pick}: at step {k} {a[k]:.9g} one way, {b_[k]:.9g} the other (largest {scale:.3g})")
    res.count("steps compared", len(a))
    res.signature = [gen.describe(p), [str(x) for x in pick]]
    res.sample = {"terminals": [str(x) for x in pick], "largest transfer": float(scale)}
