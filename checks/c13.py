"""C13: runs in pieces, repeated, interleaved and copied; inputs; the common time step."""
import copy

import numpy as np

from lib import gen, refsim
from lib import transform as tf
from lib.build import Sim, make_line
from lib.compare import against_reference, chunks_of, scales
from lib.core import Inconclusive, expect, require
from lib.spec import Problem, default_dt

PROPERTY = "C13"
TECHNIQUE = "runtime monitor over histories of runs: pieces, repetitions, interleavings and copies compared sample by sample; inputs fingerprinted before and after"
LEVEL_NOTE = "Compares executions of the real code, and with the reference simulator for the common time step; exploration over seeded random models and splittings."
RULE = "a case is one random model and one sequence of runs, copies or interleavings; non-trivial when excited; distinct by shape and splitting"
ASSUMPTIONS = ["pieces compared within 1e-10 of the largest value; repetitions exactly"]
MUST_OBSERVE = {"oracle:pieces": 30, "oracle:repeat": 20, "oracle:interleaved": 20, "oracle:inputs": 20, "oracle:copy": 10,
                "oracle:common step": 10, "oracle:unconnected": 8}


def jobs(tier, rng):
    return gen.jobs_from({"pieces": (36, 300), "repeat": (16, 120), "interleave": (16, 150), "inputs": (20, 150),
                          "copy": (20, 150), "common-step": (20, 150), "unconnected": (14, 100), "changed-step": (14, 100),
                          "counts": (16, 120), "fields": (6, 40)}, tier, rng)


def make(rng, max_steps=160):
    k = rng.integers(5)
    if k == 0:
        return gen.standalone(rng, per_cell=rng.random() < .2, connectors=int(rng.integers(0, 3)), rloc=int(rng.integers(0, 2)), max_steps=max_steps)
    if k == 1:
        return gen.single_bundle(rng, depth=int(rng.integers(2, 4)), transfers=2, connectors=1, local=1, max_n=2,
                                 max_steps=max_steps, cells=(6, 12), end_transfers=int(rng.integers(0, 2)))
    if k == 2:
        return gen.single_bundle(rng, connectors=2, local=1, gloc=1, max_steps=max_steps)
    p = gen.junction_problem(rng, depth=int(rng.integers(1, 3)), max_n=2, max_steps=max_steps)
    for b in p.bundles:
        for ln in b.lines:
            gen.add_connectors(rng, b, ln, int(rng.integers(0, 2)), np.sqrt(ln.l[0, 0]/ln.c[0, 0]), p.steps*p.dt)
    return p


def pieces(rng, steps):
    """Many pieces, also of a single step and of none."""
    out, left = [], steps
    while left:
        m = int(rng.choice([0, 1, 1, 2, int(rng.integers(1, left+1)), int(rng.integers(1, left+1))]))
        m = min(m, left)
        out.append(m)
        left -= m
    return out


def same(res, oracle, a, b, tol=0.0):
    for n in a:
        for x, y in zip(a[n], b[n]):
            if tol == 0:
                require(res, oracle, np.array_equal(x, y), f"records of {n} differ by {np.max(np.abs(x - y)) if x.shape == y.shape else (x.shape, y.shape)}")
    if tol:
        against_reference(res, a, b, tol, oracle)


def snapshot(p):
    out = []
    for b in p.bundles:
        out += [b.points.copy(), list(b.ndiv)]
        for ln in b.lines:
            out += [ln.l.copy(), ln.c.copy(), ln.r.copy(), ln.g.copy(), None if ln.zs is None else ln.zs.copy(), None if ln.zl is None else ln.zl.copy()]
    return out


def equal(a, b):
    return all((x is None and y is None) or np.array_equal(x, y) for x, y in zip(a, b))


def run_job(job, res):
    rng = gen.rng_of(job)
    kind = job["kind"]
    if kind == "copy":
        return run_copy(rng, res)
    if kind == "inputs":
        return run_inputs(rng, res)
    if kind == "common-step":
        return common_step(rng, res)
    if kind == "unconnected":
        return unconnected(rng, res)
    if kind == "changed-step":
        return changed_step(rng, res)
    if kind == "counts":
        return counts(rng, res)
    if kind == "fields":
        p = gen.single_bundle(rng, cells=(5, 8), max_n=2, max_steps=40, sources=False)
        gen.incident_field(rng, p.bundles[0], p.steps*p.dt, integrals=False)
    else:
        p = make(rng)
    before = snapshot(p)
    one = Sim(p).run()
    if max(scales(one)) == 0:
        raise Inconclusive("nothing was excited")
    if kind in ("pieces", "fields"):
        parts = pieces(rng, p.steps)
        sim = Sim(p)
        many = sim.run(parts)
        same(res, "pieces", many, one, 1e-10)
        for b in p.bundles:
            tv, ti = sim.times[b.name]
            expect(res, "pieces-time", np.max(np.abs(tv - (np.arange(p.steps) + 1)*p.dt))/p.dt, 1e-6, "times go on from one piece to the next")
        res.signature = [gen.describe(p), parts]
        res.sample = {"pieces": parts}
    elif kind == "repeat":
        same(res, "repeat", Sim(p).run(), one)
        shared = Sim(p)
        again = shared.run()
        same(res, "repeat", again, one)
        res.signature = gen.describe(p)
    elif kind == "interleave":
        q = make(rng) if rng.random() < .5 else p
        other = Sim(q).run() if q is not p else one
        A, B = Sim(p), Sim(q)
        ha, hb = [], []
        pa, pb = pieces(rng, p.steps), pieces(rng, q.steps)
        while pa or pb:
            if pa and (not pb or rng.random() < .5):
                ha.append(advance(A, p, pa.pop(0)))
            else:
                hb.append(advance(B, q, pb.pop(0)))
        same(res, "interleaved", join(ha), one, 1e-10)
        same(res, "interleaved", join(hb), other, 1e-10)
        res.signature = [gen.describe(p), gen.describe(q)]
    require(res, "inputs", equal(before, snapshot(p)), "the arrays of the caller were modified")


def advance(sim, p, m):
    if p.standalone:
        sim.top.dt = p.dt
        sim.top.run_until((m + .5)*p.dt)
    else:
        sim.top.run_until((m + .5)*p.dt, p.dt)
    out = {}
    for b in p.bundles:
        out[b.name] = (np.array([q.val for q in sim.vprobes[b.name]]).transpose(1, 2, 0), np.array([q.val for q in sim.iprobes[b.name]]).transpose(1, 2, 0))
    return out


def join(parts):
    return {n: tuple(np.concatenate([h[n][k] for h in parts], axis=0) for k in (0, 1)) for n in parts[0]}


def run_inputs(rng, res):
    """Arrays and dictionaries handed over are as they were, also when shared between two objects."""
    import src.mtl as mtl
    p = gen.standalone(rng, max_steps=60)
    b = p.bundles[0]
    ln = b.lines[0]
    n = ln.n
    z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
    T = p.steps*p.dt
    zs, zl = ln.zs.reshape(-1), ln.zl.reshape(-1)
    docs = [gen.model(rng, z, T).doc() for _ in range(2)]
    u = b.nodes()
    ks = [int(x) for x in rng.permutation(len(u) - 1)[:2]]
    pos = [u[k].copy() for k in ks]
    args = dict(l=ln.l, c=ln.c, r=ln.r, g=ln.g, node_positions=b.points, ndiv=b.ndiv, Zs=zs, Zl=zl)
    frozen = copy.deepcopy([args, docs, pos])
    objs = []
    for q in range(2):
        obj = mtl.MTL(name="x", **args)
        for d, x in zip(docs, pos):
            obj.add_dispersive_connector(x, int(rng.integers(n)) if q < 0 else 0, d)
        if q == 0:
            obj.set_resistance_in_region(u[1], u[-2], 0, 3*z)
            obj.add_conductance_in_region(u[0], u[-1], 0, 1/z)
        obj.add_voltage_source(u[0], 0, gen.gaussian(1, T/3, T/10))
        pr = obj.add_probe(u[len(u)//2], "voltage")
        obj.dt = p.dt
        obj.run_until(T)
        objs.append((obj, pr))
    now = [args, docs, pos]
    for a, c in zip(frozen[0].items(), now[0].items()):
        require(res, "inputs", np.array_equal(a[1], c[1]), f"argument {a[0]} was modified")
    require(res, "inputs", frozen[1] == now[1], "a connector model was modified")
    require(res, "inputs", all(np.array_equal(a, c) for a, c in zip(frozen[2], now[2])), "a position was modified")
    # the second object, built from the same arrays, knows nothing of what was set on the first
    from lib.spec import Model
    ln.connectors = [(0, x, Model(d["cte"], d["prop"], [complex(a, e) for a, e in zip(d["poles"]["real"], d["poles"]["imag"])],
                                  [complex(a, e) for a, e in zip(d["residues"]["real"], d["residues"]["imag"])])) for d, x in zip(docs, pos)]
    ln.sources = {(0, "S"): gen.gaussian(1, T/3, T/10)}
    p.steps = len(objs[1][1].t)
    ref, _ = refsim.run(p)
    r = ref[b.name][0][:, :, len(u)//2]
    expect(res, "shared arrays", np.max(np.abs(objs[1][1].val - r))/np.max(np.abs(ref[b.name][0])), 1e-7, "a line built from arrays used before")
    # transfer impedance dictionaries and descriptions of networks
    q = gen.single_bundle(rng, depth=2, transfers=1, max_steps=20, max_n=2, cells=(5, 8))
    s = Sim(q)
    obj = s.bundles[q.bundles[0].name]
    doc = gen.model(rng, 1.0, q.steps*q.dt).doc()
    doc["direction"] = str(rng.choice(["in", "out", "both"]))
    if rng.random() < .7:
        doc["factor"] = float(rng.uniform(.3, 3))
    keep = copy.deepcopy(doc)
    out, inn = [0], [0]
    again = Sim(q)
    for sim, given in ((s, [doc, doc]), (again, [copy.deepcopy(keep), copy.deepcopy(keep)])):
        obj = sim.bundles[q.bundles[0].name]
        obj.add_transfer_impedance(0, out, 1, inn, given[0])
        obj.set_connector_transfer_impedance("initial", 0, out, 1, inn, given[1])
    ours, theirs = s.run(), again.run()
    require(res, "inputs", keep == doc and out == [0] and inn == [0], "a transfer impedance was modified")
    for name in ours:
        for x, y in zip(ours[name], theirs[name]):
            require(res, "shared arrays", np.array_equal(x, y), "a transfer impedance given twice differs from two copies of it")
    res.signature = gen.describe(p)


def run_copy(rng, res):
    """A clean copy starts from rest and the two lines do not share anything that changes."""
    p = gen.standalone(rng, connectors=int(rng.integers(0, 4)), rloc=1, max_steps=160)
    b = p.bundles[0]
    one = Sim(p).run()[b.name]
    sim = Sim(p)
    sim.top.dt = p.dt
    m = int(rng.integers(1, p.steps))
    sim.top.run_until((m + .5)*p.dt)
    v0, i0 = sim.top.v.copy(), sim.top.i.copy()
    copied = sim.top.create_clean_copy()
    require(res, "copy", np.array_equal(sim.top.v, v0) and np.array_equal(sim.top.i, i0) and sim.top.time > 0, "making a copy changed the original")
    require(res, "copy", not np.any(copied.v) and not np.any(copied.i) and copied.time == 0, "a clean copy is not at rest")
    u = b.nodes()
    vp = [copied.add_probe(x, "voltage") for x in u]
    ip = [copied.add_probe(x, "current") for x in u[:-1]]
    if rng.random() < .5:                                       # what is done to the copy stays there
        copied2 = sim.top.create_clean_copy()
        copied2.set_resistance_in_region(u[1], u[-2], 0, 1e3)
        copied2.add_voltage_source(u[0], 0, lambda t: 7.0)
        copied2.add_dispersive_connector
        copied2.run_until(20*p.dt)
    copied.run_until((p.steps + .5)*p.dt)
    got = (np.array([q.val for q in vp]).transpose(1, 2, 0), np.array([q.val for q in ip]).transpose(1, 2, 0))
    against_reference(res, {b.name: got}, {b.name: one}, 1e-10, "copy")
    require(res, "copy", np.array_equal(sim.top.v, v0) and np.array_equal(sim.top.i, i0), "running a copy changed the original")
    sim.top.run_until((p.steps - m + .5)*p.dt)
    rest = (np.array([q.val for q in sim.vprobes[b.name]]).transpose(1, 2, 0), np.array([q.val for q in sim.iprobes[b.name]]).transpose(1, 2, 0))
    against_reference(res, {b.name: rest}, {b.name: (one[0][m:], one[1][m:])}, 1e-10, "copy", need_signal=False)
    res.signature = [gen.describe(p), m]


def common_step(rng, res):
    """Bundles of very different cells in one network: one step for all, the smallest default or the one given."""
    import src.mtln as mtln
    p = gen.junction_problem(rng, max_steps=120, max_n=2) if rng.random() < .6 else gen.single_bundle(rng, max_steps=120)
    given = rng.random() < .5
    least = default_dt(p)
    if given:
        p.dt = least*float(rng.uniform(.4, 1))
    else:
        p.dt = least
    sim = Sim(p)
    for b in p.bundles:
        if rng.random() < .3 and given:
            sim.bundles[b.name].dt = least*float(rng.uniform(.2, 1))       # whatever a bundle had before
    if not given:
        expect(res, "common step", abs(sim.top.dt/least - 1), 1e-9, f"default step {sim.top.dt}, smallest of the bundles {least}")
    T = (p.steps + .5)*p.dt
    if given and rng.random() < .5:
        sim.top.dt = p.dt
        sim.top.run_until(T)
    elif given:
        sim.top.run_until(T, p.dt)
    else:
        sim.top.run_until(T)
    got = {}
    for b in p.bundles:
        vp, ip = sim.vprobes[b.name], sim.iprobes[b.name]
        require(res, "common step", len(vp[0].t) == p.steps, f"{len(vp[0].t)} samples for {p.steps} steps in {b.name}")
        expect(res, "common step", np.max(np.abs(vp[0].t - (np.arange(p.steps)+1)*p.dt))/p.dt, 1e-6, f"times in {b.name}")
        got[b.name] = (np.array([q.val for q in vp]).transpose(1, 2, 0), np.array([q.val for q in ip]).transpose(1, 2, 0))
    ref, _ = refsim.run(p)
    against_reference(res, got, ref, 1e-7, "common step")
    res.signature = [gen.describe(p), given]


def unconnected(rng, res):
    """Structures without a common network in one run against each on its own."""
    p, q = gen.junction_problem(rng, count=2, max_steps=120, max_n=2), gen.single_bundle(rng, max_steps=120, depth=int(rng.integers(1, 3)), transfers=1)
    for b in q.bundles:
        b.name = "other"
        for ln in b.lines:
            ln.name = "other_" + ln.name
        for net in q.nets:
            net.nodes = {nid: ("other", ln, c, s) for nid, (_, ln, c, s) in net.nodes.items()}
    dt, steps = min(p.dt, q.dt), min(p.steps, q.steps)
    for x in (p, q):
        x.dt, x.steps = dt, steps
    both = Problem([b for b in (p.bundles + q.bundles)], p.nets + q.nets, dt, steps)
    both.bundles = [both.bundles[k] for k in rng.permutation(len(both.bundles))]
    both.nets = [both.nets[k] for k in rng.permutation(len(both.nets))]
    h = Sim(both).run()
    alone = {**Sim(p).run(), **Sim(q).run()}
    same(res, "unconnected", h, alone, 1e-10)
    res.signature = [gen.describe(p), gen.describe(q)]


def changed_step(rng, res):
    """Run with one step, then with another: every term follows."""
    p = gen.standalone(rng, connectors=int(rng.integers(0, 2)), max_steps=80, gloc=1) if rng.random() < .5 else gen.single_bundle(rng, connectors=1, max_steps=80)
    sim = Sim(p)
    other = p.dt*float(rng.uniform(.3, 1))
    # a first run with another step and no excitation leaves the line at rest, and its terms refreshed
    quiet = tf.map_sources(p, lambda k, f: (lambda t: f(t - 12*other) if t > 10.25*other else 0.0))
    sim = Sim(quiet)
    late = tf.map_sources(p, lambda k, f: (lambda t: f(t - 12*other) if t > 10.25*other else 0.0))
    q = tf.clone(p)
    if p.standalone:
        sim.top.dt = other
        sim.top.run_until(10.5*other)
        sim.top.dt = p.dt
        sim.top.run_until((p.steps + .5)*p.dt)
    else:
        sim.top.run_until(10.5*other, other)
        sim.top.run_until((p.steps + .5)*p.dt, p.dt)
    shift = 10*other
    ref_p = tf.map_sources(late, lambda k, f: tf.delayed(f, -shift))
    # sources sampled one and two steps before the second run are zero by construction
    ref_p = tf.map_sources(ref_p, lambda k, f: (lambda t: f(t) if t > .25*min(other, p.dt) else 0.0))
    ref, _ = refsim.run(ref_p)
    got = {b.name: (np.array([x.val for x in sim.vprobes[b.name]]).transpose(1, 2, 0), np.array([x.val for x in sim.iprobes[b.name]]).transpose(1, 2, 0)) for b in p.bundles}
    against_reference(res, got, ref, 1e-7, "changed step", need_signal=False)
    for b in p.bundles:
        t = sim.vprobes[b.name][0].t
        expect(res, "changed step times", np.max(np.abs(t - shift - (np.arange(p.steps)+1)*p.dt))/p.dt, 1e-6, "times")
    res.signature = [gen.describe(p), round(other/p.dt, 3)]


def counts(rng, res):
    """Number of steps of a run: the duration over the step, rounded down."""
    p = gen.standalone(rng, max_steps=40, cells=(5, 9)) if rng.random() < .5 else gen.single_bundle(rng, max_steps=40, cells=(5, 9), max_n=1)
    sim = Sim(p)
    total = 0
    for _ in range(4):
        m, f = int(rng.integers(0, 40)), float(rng.choice([10**rng.uniform(-9, -1), .3, .5, .7, 1 - 10**rng.uniform(-9, -1)]))
        T = (m + f)*p.dt
        if p.standalone:
            sim.top.dt = p.dt
            sim.top.run_until(T)
        else:
            sim.top.run_until(T, p.dt)
        total += m
        for b in p.bundles:
            for q in (sim.vprobes[b.name][0], sim.iprobes[b.name][-1]):
                require(res, "counts", len(q.t) == m and q.val.shape == (m, b.n), f"{len(q.t)} samples for a duration of {m + f} steps")
        expect(res, "counts", abs(sim.top.time/p.dt - total), 1e-6, "time reached")
    res.signature = [gen.describe(p), total]
