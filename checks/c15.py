"""C15: transfer impedances: induced voltage against the exact convolution of the driving current, direction,
factor, additivity, end overrides, reference simulator and transmission-line theory."""
import copy

import numpy as np

from checks.c14 import drops, respond
from lib import fd, gen, refsim, staged
from lib import transform as tf
from lib.build import Sim
from lib.compare import against_reference, chunks_of, scales, simulate_and_compare
from lib.core import Inconclusive, expect, require
from lib.spec import Model, TransferSpec

PROPERTY = "C15"
TECHNIQUE = "runtime monitor: voltage induced in every conductor and segment, recomputed from recorded voltages and currents, against the exact convolution of the driving currents with the specified impedances; direction, factor, additivity and zero monitors between executions; reference simulator; Laplace-domain oracle"
LEVEL_NOTE = "Observes every conductor, segment and step of seeded random bundles of two to four levels; exploration."
RULE = "a case is one bundle of levels with its couplings; non-trivial when a driving conductor carries current; distinct by shape and couplings"
ASSUMPTIONS = ["couplings weak enough that the coupled bundle stays stable (as for real cable shields)",
               "an end override is given after the coupling it replaces", "induced voltages within 1e-6 of the largest voltage"]
MUST_OBSERVE = {"oracle:induced": 60, "oracle:reference": 60, "oracle:no back action": 10, "oracle:factor": 8, "oracle:sum": 8,
                "oracle:zero": 8, "oracle:untouched": 6, "oracle:theory": 6, "couplings observed": 60, "oracle:later": 8}


def jobs(tier, rng):
    return gen.jobs_from({"two": (30, 260), "deep": (24, 200), "ends": (20, 180), "connectors": (14, 120), "one-way": (24, 200),
                          "factor": (12, 100), "sum": (16, 120), "zero": (14, 100), "untouched": (14, 100), "theory": (8, 60),
                          "junction": (10, 80), "long": (3, 16), "later": (14, 110)}, tier, rng)


def couplings(p, b, rb):
    """(receiving conductor, driving conductor, model per metre or None for the segments, segments) after overrides."""
    widths = [sum(l.n for l in lev) for lev in b.levels]
    table = {}
    for tr in b.transfers:
        if tr.model.cte == 0 and tr.model.prop == 0 and not tr.model.poles:
            continue
        m = tr.model.scaled(1/(tr.factor or 1))
        cells = {None: range(rb.K), "initial": [0], "end": [rb.K-1]}[tr.side]
        for a in tr.out_cond:
            for c in tr.in_cond:
                o, i = sum(widths[:tr.out_level]) + a, sum(widths[:tr.in_level]) + c
                ways = {"in": [(i, o)], "out": [(o, i)], "both": [(i, o), (o, i)]}[tr.direction]
                for way in ways:
                    for k in cells:
                        if tr.side is None:
                            table.setdefault((way, k), []).append(m)
                        else:
                            table[(way, k)] = [m]
    return table


def induced(res, p, got, oracle="induced"):
    for b in p.bundles:
        if b.local or b.fields:
            continue
        E, rb = drops(p, got, b)
        I = got[b.name][1]
        expected = np.zeros_like(E)
        for ln in b.lines:
            o = b.offset(ln)
            for c, x, m in ln.connectors:
                k = min(refsim._nearest(rb.u, x), rb.K-1)
                expected[:, o+c, k] += respond(m, I[:, o+c, k], p.dt)
        cache = {}
        for ((to, frm), k), models in couplings(p, b, rb).items():
            if np.max(np.abs(I[:, frm, k])) > 0:
                res.count("couplings observed")
            for m in models:
                expected[:, to, k] -= rb.du[k]*respond(m, I[:, frm, k], p.dt)
        scale = max(np.max(np.abs(expected)), np.max(np.abs(got[b.name][0])))
        if scale == 0:
            continue
        err = np.abs(E - expected)
        w = np.unravel_index(np.argmax(err), err.shape)
        expect(res, oracle, err[w]/scale, 1e-6,
               f"step {w[0]}, conductor {w[1]}, segment {w[2]} of {rb.K}: drop {E[w]:.6g}, couplings and connectors give {expected[w]:.6g}; "
               f"{[(t.out_level, t.out_cond, t.in_level, t.in_cond, t.direction, t.side) for t in b.transfers]}")
        res.count("induced voltages compared", E.size)


def make(rng, depth=None, transfers=None, cells=(6, 14), max_steps=160, **kw):
    depth = depth or int(rng.integers(2, 4))
    p = gen.single_bundle(rng, depth=depth, transfers=transfers or int(rng.integers(1, 4)), max_n=2, cells=cells, max_steps=max_steps, **kw)
    return p


def run_job(job, res):
    rng = gen.rng_of(job)
    kind = job["kind"]
    if kind == "later":                        # couplings given between runs, and runs of other time steps
        p = make(rng, rich=False, end_transfers=int(rng.integers(0, 2)))
        staged.run(rng, res, p, ("transfers", "step"), oracle="later")
        res.signature = gen.describe(p)
        return
    if kind in ("one-way", "factor", "sum", "zero", "untouched"):
        return {"one-way": one_way, "factor": factor, "sum": total, "zero": zero, "untouched": untouched}[kind](rng, res)
    if kind == "two":
        p = make(rng, 2)
    elif kind == "deep":
        p = make(rng, int(rng.integers(3, 5)), transfers=int(rng.integers(2, 5)))
    elif kind == "ends":
        p = make(rng, end_transfers=int(rng.integers(1, 4)))
        if rng.random() < .5:
            same_pair_override(rng, p)
    elif kind == "connectors":
        p = make(rng, connectors=3)
    elif kind == "junction":
        p = gen.junction_problem(rng, depth=2, max_n=2, cells=(6, 12), max_steps=160)
        for b in p.bundles:
            gen.transfer(rng, b, p.steps*p.dt)
    elif kind == "long":
        p = make(rng, 2, transfers=1, cells=(6, 9), transits=20, max_steps=1200)
        for tr in p.bundles[0].transfers:
            tr.model = tr.model.scaled(.1)
            if tr.direction != "in":
                tr.direction = "both"
    else:
        p = gen.single_bundle(rng, depth=2, transfers=1, max_n=1, cells=(24, 30), max_steps=420, transits=4.0, lines_per_level=1, media=0)
        T = p.steps*p.dt
        p = tf.map_sources(p, lambda k, f: gen.gaussian(10**rng.uniform(-1, 1), T*rng.uniform(.1, .3), T*rng.uniform(.02, .06)))
    sim, got, ref = simulate_and_compare(res, p, rng, tol=1e-7 if kind != "long" else 1e-6)
    if kind != "long":
        induced(res, p, got)
    if kind == "theory":
        fd.compare(res, p, got, rng, oracle="theory", tol=0.25, electrical=0.1)
    res.signature = [gen.describe(p), [[t.out_level, t.out_cond, t.in_level, t.in_cond, t.direction, t.side, len(t.model.poles)]
                                       for b in p.bundles for t in b.transfers]]
    res.sample = {"couplings": res.signature[1], "max": scales(ref)}


def same_pair_override(rng, p):
    """Override exactly a coupling that exists, at one or both ends."""
    b = p.bundles[0]
    base = next(t for t in b.transfers if t.side is None)
    for side in (["initial", "end"] if rng.random() < .5 else [str(rng.choice(["initial", "end"]))]):
        m = gen.model(rng, np.sqrt(b.lines[0].l[0, 0]/b.lines[0].c[0, 0])*10**rng.uniform(-2, -.8)/b.length, p.steps*p.dt)
        b.transfers.append(TransferSpec(base.out_level, list(base.out_cond), base.in_level, list(base.in_cond), m, base.direction,
                                        float(rng.uniform(.5, 3)) if rng.random() < .3 else None, side))


def one_way(rng, res):
    """Inward couplings leave the outer levels as they are, outward ones the inner levels; exactly."""
    way = str(rng.choice(["in", "out"]))
    p = make(rng, local=1)
    for tr in p.bundles[0].transfers:
        tr.direction = way
    q = tf.clone(p)
    q.bundles[0].transfers = []
    a, c = Sim(p).run(chunks_of(rng, p.steps)), Sim(q).run(chunks_of(rng, p.steps))
    b = p.bundles[0]
    widths = [sum(l.n for l in lev) for lev in b.levels]
    receiving = set()
    for tr in b.transfers:
        o, i = sum(widths[:tr.out_level]), sum(widths[:tr.in_level])
        receiving |= {i + x for x in tr.in_cond} if way == "in" else {o + x for x in tr.out_cond}
    # conductors that share a line with a receiving one hear it through the mutual inductance
    reach = set()
    for ln in b.lines:
        o = b.offset(ln)
        if receiving & set(range(o, o+ln.n)):
            reach |= set(range(o, o+ln.n))
    quiet = [c_ for c_ in range(b.n) if c_ not in reach]
    require(res, "no back action", len(quiet) < b.n, "nothing receives")
    V0, I0 = c[b.name]
    V1, I1 = a[b.name]
    if not quiet:
        raise Inconclusive("every conductor receives")
    s, si = max(np.max(np.abs(V0)), 1e-300), max(np.max(np.abs(I0)), 1e-300)
    expect(res, "no back action", np.max(np.abs(V1[:, quiet] - V0[:, quiet]))/s, 1e-12, f"coupling {way}: voltages of conductors {quiet}")
    expect(res, "no back action", np.max(np.abs(I1[:, quiet] - I0[:, quiet]))/si, 1e-12, f"coupling {way}: currents of conductors {quiet}")
    res.count("changed conductors", int(np.max(np.abs(V1 - V0)) > 0))
    res.signature = [gen.describe(p), way]


def factor(rng, res):
    p = make(rng, end_transfers=int(rng.integers(0, 2)))
    q = tf.clone(p)
    for tr in p.bundles[0].transfers:
        tr.factor = float(rng.uniform(.3, 8))
    for tr, old in zip(q.bundles[0].transfers, p.bundles[0].transfers):
        tr.model, tr.factor = tr.model.scaled(1/old.factor), None
    a, c = Sim(p).run(chunks_of(rng, p.steps)), Sim(q).run(chunks_of(rng, p.steps))
    against_reference(res, a, c, 1e-8, "factor")
    res.signature = gen.describe(p)


def total(rng, res):
    """The same conductors coupled twice: the sum of both, however it is split and in whatever order."""
    p = make(rng, transfers=1)
    b = p.bundles[0]
    base = b.transfers[0]
    parts = []
    m = base.model
    x = float(rng.uniform(.2, .8))
    cut = int(rng.integers(0, len(m.poles)+1))
    # keep conjugate pairs together
    while 0 < cut < len(m.poles) and m.poles[cut].imag != 0 and m.poles[cut] == m.poles[cut-1].conjugate():
        cut -= 1
    for k, (lo, hi, w) in enumerate(((0, cut, x), (cut, len(m.poles), 1-x))):
        t = copy.deepcopy(base)
        t.model = Model(m.cte*w, m.prop*w, m.poles[lo:hi], m.residues[lo:hi])
        parts.append(t)
    q = tf.clone(p)
    if base.direction == "both" and rng.random() < .5:
        more = []
        for t in parts:
            for d in ("in", "out"):
                s = copy.deepcopy(t)
                s.direction = d
                more.append(s)
        parts = more
    if rng.random() < .5:                       # one conductor at a time
        parts = [TransferSpec(t.out_level, [a], t.in_level, [c], t.model, t.direction, t.factor, None)
                 for t in parts for a in t.out_cond for c in t.in_cond]
    q.bundles[0].transfers = [parts[k] for k in rng.permutation(len(parts))]
    a, c = Sim(p).run(chunks_of(rng, p.steps)), Sim(q).run(chunks_of(rng, p.steps))
    against_reference(res, c, a, 1e-8, "sum")
    induced(res, q, c)
    res.signature = [gen.describe(p), len(parts)]


def zero(rng, res):
    p = make(rng, end_transfers=1) if rng.random() < .7 else make(rng, connectors=2)
    q = tf.clone(p)
    b = q.bundles[0]
    nul = copy.deepcopy(b.transfers[int(rng.integers(len(b.transfers)))])
    nul.model = Model()
    nul.side = None if rng.random() < .5 else str(rng.choice(["initial", "end"]))
    b.transfers.insert(int(rng.integers(0, len(b.transfers)+1)), nul)
    if rng.random() < .4:                        # nothing but zero
        b.transfers = [nul]
        p.bundles[0].transfers = []
    a, c = Sim(p).run(), Sim(q).run()
    against_reference(res, c, a, 1e-12, "zero")
    res.signature = [gen.describe(p), str(nul.side)]


def untouched(rng, res):
    """Conductors that nothing drives and nothing couples to stay exactly at zero."""
    p = gen.single_bundle(rng, depth=int(rng.integers(2, 4)), transfers=0, max_n=2, cells=(6, 12), max_steps=120, lines_per_level=2,
                          sources=False, rich=False)
    b = p.bundles[0]
    T = p.steps*p.dt
    outer = b.levels[0][0]
    net = p.nets[0]
    nid = next(n for n, (_, ln, c, s) in net.nodes.items() if ln is outer)
    net.elements.append(("R", nid, gen.resistor(rng, np.sqrt(outer.l[0, 0]/outer.c[0, 0])), gen.waveform(rng, T)))
    inner = b.levels[1]
    target = int(rng.integers(2))
    o = sum(l.n for l in inner[:target])
    z = np.sqrt(outer.l[0, 0]/outer.c[0, 0])*10**rng.uniform(-2.5, -1)/b.length
    b.transfers.append(TransferSpec(0, list(range(outer.n)), 1, [o + int(rng.integers(inner[target].n))], gen.model(rng, z, T),
                                    str(rng.choice(["in", "both"])), None, None if rng.random() < .7 else str(rng.choice(["initial", "end"]))))
    got = Sim(p).run(chunks_of(rng, p.steps))[b.name]
    for ln in b.lines:
        oo = b.offset(ln)
        silent = not np.any(got[0][:, oo:oo+ln.n]) and not np.any(got[1][:, oo:oo+ln.n])
        if ln is outer or ln is inner[target]:
            require(res, "untouched", not silent, f"line {ln.name} should have been driven")
        else:
            require(res, "untouched", silent, f"line {ln.name} is not coupled to anything but carries a signal")
    induced(res, p, {b.name: got})
    res.signature = gen.describe(p)
