"""C09: one structure described in several ways, real code on both sides."""
import copy

import numpy as np

from lib import gen
from lib import transform as tf
from lib.build import Sim
from lib.compare import against_reference, chunks_of, scales
from lib.core import Inconclusive, expect
from lib.spec import BundleSpec, LineSpec, NetSpec, Problem, default_dt

PROPERTY = "C09"
TECHNIQUE = "metamorphic runtime monitor: equivalent descriptions (line/bundle, grouping of conductors, division, cutting) compared at every probe and step"
LEVEL_NOTE = "Compares executions of the real code only; exploration over seeded random structures."
RULE = "a case is one structure and two descriptions of it; non-trivial when excited; distinct by shape and descriptions"
ASSUMPTIONS = ["tolerance 1e-7 of the largest value; 2e-2 for cut lines rejoined by ideal shorts (1e10 S in the code)"]
MUST_OBSERVE = {"oracle:line-bundle": 25, "oracle:grouping": 40, "oracle:division": 20, "oracle:rejoined": 8}


def jobs(tier, rng):
    return gen.jobs_from({"line-bundle": (32, 260), "grouping": (36, 300), "separate": (24, 200), "division": (24, 200),
                          "rejoined": (16, 120)}, tier, rng)


def go(p, rng):
    return Sim(p).run(chunks_of(rng, p.steps))


def line_bundle(rng, res):
    p = gen.standalone(rng, connectors=int(rng.integers(0, 3)), rloc=int(rng.integers(0, 2)), gloc=int(rng.integers(0, 2)),
                       max_steps=200)
    b = p.bundles[0]
    ln = b.lines[0]
    z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
    for arr in (ln.zs, ln.zl):
        arr[arr == 0] = z
    q = tf.clone(p)
    q.standalone = False
    lq = q.bundles[0].lines[0]
    ids = gen.counter(rng)
    for s, zz in (("S", ln.zs), ("L", ln.zl)):
        net = NetSpec({}, [])
        for c in rng.permutation(ln.n):
            nid = next(ids)
            net.nodes[nid] = (b.name, lq, int(c), s)
            net.elements.append(("R", nid, float(zz[c]), ln.sources.get((int(c), s))))
        q.nets.append(net)
    lq.zs = lq.zl = None
    lq.sources = {}
    field = rng.random() < .15
    if field:
        p.steps = q.steps = min(p.steps, 40)
        fs = gen.incident_field(rng, b, p.steps*p.dt, integrals=False)
        q.bundles[0].fields = [fs]
    a, c = go(p, rng), go(q, rng)
    against_reference(res, c, a, 1e-7, "line-bundle")
    res.signature = [gen.describe(p), field]
    res.sample = {"max": scales(a)}


def uncoupled(rng, n):
    pts, ndiv = gen.geometry(rng, (6, 18))
    b = BundleSpec("b0", pts, ndiv, [])
    v = rng.uniform(0.9e8, 3e8)
    lines = []
    for k in range(n):
        z = 10**rng.uniform(1.3, 2.6)
        w = v*rng.uniform(.6, 1)
        m = LineSpec(f"w{k}", np.array([[z/w]]), np.array([[1/(z*w)]]), np.array([[z/b.length*rng.choice([0, rng.uniform(.1, 1)])]]),
                     np.array([[1/z/b.length*rng.choice([0, rng.uniform(.1, 1)])]]))
        lines.append(m)
    return b, lines


def bdiag(mats):
    n = len(mats)
    out = np.zeros((n, n))
    for k, m in enumerate(mats):
        out[k, k] = m[0, 0]
    return out


def groups_of(rng, n):
    """A random ordered partition of the conductors into lines, and of the lines into levels (one line on the outermost)."""
    order = [int(x) for x in rng.permutation(n)]
    cuts = sorted(set(int(x) for x in rng.integers(1, n, size=int(rng.integers(0, n))))) if n > 1 else []
    lines = [order[a:c] for a, c in zip([0]+cuts, cuts+[n])]
    levels = [[lines[0]]]
    for g in lines[1:]:
        if len(levels) == 1 or rng.random() < .4:
            levels.append([g])
        else:
            levels[-1].append(g)
    return levels


def assemble(b, wires, groups, name="b0", extra=None):
    q = BundleSpec(name, b.points, list(b.ndiv), [])
    where = {}
    for lev in groups:
        level = []
        for g in lev:
            ln = LineSpec("line_" + "_".join(map(str, g)), bdiag([wires[k].l for k in g]), bdiag([wires[k].c for k in g]),
                          bdiag([wires[k].r for k in g]), bdiag([wires[k].g for k in g]))
            for i, k in enumerate(g):
                where[k] = (ln, i)
                ln.connectors += [(i, x, m) for _, x, m in wires[k].connectors]
            level.append(ln)
        q.levels.append(level)
    return q, where


def grouping(rng, res, separate):
    n = int(rng.integers(2, 5))
    b, wires = uncoupled(rng, n)
    T = min(b.length/gen.vmin(w) for w in wires)*3
    for w in wires:
        gen.add_connectors(rng, b, w, int(rng.integers(0, 2)), np.sqrt(w.l[0, 0]/w.c[0, 0]), T)
    loads = {}
    for k, w in enumerate(wires):
        z = np.sqrt(w.l[0, 0]/w.c[0, 0])
        for s in "SL":
            f = gen.waveform(rng, T) if rng.random() < .6 or (k == 0 and s == "S") else None
            kind = rng.integers(4)
            loads[(k, s)] = [("R", gen.resistor(rng, z), f), ("C", float(T/z*10**rng.uniform(-2, -1)), f),
                             ("LCpRs", float(z*rng.uniform(.2, 2)), float(T*z*.03), float(T/z*.02), f),
                             ("R", gen.resistor(rng, z), f)][kind]
    local = [(int(rng.integers(n)), gen.waveform(rng, T), sorted(rng.uniform(0, 1, 2))) for _ in range(int(rng.integers(0, 3)))]

    def problem(groups):
        if separate and groups is None:
            parts = []
            for k in range(n):
                parts.append(assemble(b, wires, [[[k]]], f"b{k}"))
        else:
            parts = [assemble(b, wires, groups)]
        ids = gen.counter(rng)
        nets = []
        for bb, where in parts:
            for s in "SL":
                net = NetSpec({}, [])
                for k, (ln, i) in where.items():
                    nid = next(ids)
                    net.nodes[nid] = (bb.name, ln, i, s)
                    e = loads[(k, s)]
                    net.elements.append((e[0], nid) + e[1:])
                nets.append(net)
            for k, f, (x0, x1) in local:
                if k in where and x1 - x0 > 1e-3:
                    ln, i = where[k]
                    bb.local.append((bb.at(x0), bb.at(x1), bb.offset(ln) + i, f))
        p = Problem([x for x, _ in parts], nets)
        p.dt = dt
        p.steps = steps
        hist = go(p, rng)
        V = np.concatenate([np.stack([hist[bb.name][0][:, bb.offset(where[k][0]) + where[k][1]] for k in where], axis=1) for bb, where in parts], axis=1)
        I = np.concatenate([np.stack([hist[bb.name][1][:, bb.offset(where[k][0]) + where[k][1]] for k in where], axis=1) for bb, where in parts], axis=1)
        names = [k for _, where in parts for k in where]
        o = np.argsort(names)
        return {"all": (V[:, o], I[:, o])}
    tmp = assemble(b, wires, [[list(range(n))]])[0]
    dt = default_dt(Problem([tmp]))*float(rng.choice([1.0, rng.uniform(.5, 1)]))
    steps = int(min(180, max(12, T/dt)))
    a = problem([[list(range(n))]])
    g = None if separate else groups_of(rng, n)
    c = problem(g)
    against_reference(res, c, a, 1e-7, "grouping")
    res.signature = [n, str(g), steps, len(local), [e[0] for e in loads.values()], [len(w.connectors) for w in wires]]
    res.sample = {"groups": str(g), "max": scales(a)}


def division(rng, res):
    """Straight stretches divided into consecutive stretches with the same cells."""
    p = gen.single_bundle(rng, connectors=1, rloc=1, local=1, max_steps=200) if rng.random() < .5 else \
        gen.standalone(rng, connectors=1, max_steps=200) if rng.random() < .5 else gen.junction_problem(rng, max_steps=200)
    q = tf.clone(p)
    pieces = []
    for b in q.bundles:
        pts, nd = [b.points[0]], []
        for a, e, m in zip(b.points[:-1], b.points[1:], b.ndiv):
            cuts = sorted(set(int(x) for x in rng.integers(1, m, size=2))) if m > 1 and rng.random() < .8 else []
            for c0, c1 in zip([0]+cuts, cuts+[m]):
                pts.append(a + (e - a)*(c1/m) if c1 < m else e)
                nd.append(c1 - c0)
        b.points, b.ndiv = np.array(pts), nd
        pieces.append(nd)
    a, c = go(p, rng), go(q, rng)
    against_reference(res, c, a, 1e-7, "division")
    res.signature = [gen.describe(p), pieces]


def rejoined(rng, res):
    """Cut every conductor of a bundle at a node and join the two parts one to one."""
    p = gen.single_bundle(rng, max_n=3, cells=(10, 20), max_steps=200, connectors=0, media=.3)
    b = p.bundles[0]
    q = tf.clone(p)
    old = q.bundles[0]
    u = old.nodes()
    K = len(u) - 1
    cut = int(rng.integers(3, K-2))
    parts = []
    for name, lo, hi in (("first", 0, cut), ("second", cut, K)):
        flip = rng.random() < .4
        nodes = u[lo:hi+1][::-1] if flip else u[lo:hi+1]
        bb = BundleSpec(name, nodes.copy(), [1]*(hi-lo), copy.deepcopy(old.levels))
        for lev in bb.levels:
            for ln in lev:
                ln.name = name + ln.name
                if ln.percell:
                    ln.percell = {q: np.array(x)[lo:hi + (q in "cg")][::-1 if flip else 1] for q, x in ln.percell.items()}
        parts.append((bb, flip))
    joint = NetSpec({}, [])
    nets = []
    ids = iter(range(1000))
    line_of = {ln.name: (lev, i) for lev, ls in enumerate(old.levels) for i, ln in enumerate(ls)}
    for net in q.nets:
        new = NetSpec({}, list(net.elements))
        for nid, (bn, ln, c, s) in net.nodes.items():
            bb, flip = parts[0 if s == "S" else 1]
            lev, i = line_of[ln.name]
            new.nodes[nid] = (bb.name, bb.levels[lev][i], c, {"S": "L", "L": "S"}[s] if flip else s)
        nets.append(new)
    for lev, ls in enumerate(old.levels):
        for i, ln in enumerate(ls):
            for c in range(ln.n):
                a, e = next(ids), next(ids)
                bb, flip = parts[0]
                joint.nodes[a] = (bb.name, bb.levels[lev][i], c, "S" if flip else "L")
                bb, flip = parts[1]
                joint.nodes[e] = (bb.name, bb.levels[lev][i], c, "L" if flip else "S")
                joint.elements.append(("SS", a, e, None))
    new = Problem([parts[0][0], parts[1][0]], nets + [joint], p.dt, p.steps)
    base, h = go(p, rng), go(new, rng)
    pieces = []
    for (bb, flip) in parts:
        V, I = h[bb.name]
        pieces.append((V[:, :, ::-1], -I[:, :, ::-1]) if flip else (V, I))
    V = np.concatenate([pieces[0][0], pieces[1][0][:, :, 1:]], axis=2)
    I = np.concatenate([pieces[0][1], pieces[1][1]], axis=2)
    against_reference(res, {b.name: (V, I)}, base, 2e-2, "rejoined")
    res.signature = [gen.describe(p), cut, [f for _, f in parts]]


def run_job(job, res):
    rng = gen.rng_of(job)
    k = job["kind"]
    if k == "line-bundle":
        line_bundle(rng, res)
    elif k in ("grouping", "separate"):
        grouping(rng, res, k == "separate")
    elif k == "division":
        division(rng, res)
    else:
        rejoined(rng, res)
