"""C22: malformed models are refused, and refusing them changes nothing."""
import copy
import os
import tempfile

import numpy as np

from lib import doc, gen
from lib.build import Sim, make_line
from lib.core import Inconclusive, require
from lib.digest import digest, same

PROPERTY = "C22"
TECHNIQUE = "runtime monitor: seeded fault injection into valid models and documents; every attempt must raise, the state digest must not move, and the run afterwards must equal that of an untouched twin, sample by sample"
LEVEL_NOTE = "Exploration: each listed fault is injected at random places of random models; the unfaulted model is accepted in every case."
RULE = "a case is one valid model and the faults injected into it; distinct by the model's shape and the faults"
ASSUMPTIONS = ["any exception counts as a refusal", "places off a line are at least 2 % of its length away"]
FAULTS = ["matrices", "end impedances", "divisions", "probe off the line", "connector off the line", "source off the line",
          "second connector", "coupling", "coupling kind", "node", "interconnection", "shape", "name", "unknown bundle",
          "document source", "document reference", "document connector", "document shape"]
MUST_OBSERVE = {"oracle:refused": 900, "oracle:accepted": 120, "oracle:unmoved": 300, "oracle:same run": 40,
                **{"fault:" + f: 10 for f in FAULTS}}


def jobs(tier, rng):
    return gen.jobs_from({"line": (24, 250), "standalone": (24, 250), "bundle": (24, 250), "network": (24, 250),
                          "document": (40, 400)}, tier, rng)


class Injector:
    def __init__(self, res):
        self.res = res
        self.seen = []

    def refuse(self, fault, what, attempt, watched=(), lazily=None):
        """`attempt` must raise and leave every watched object as it was."""
        before = [digest(w) for w in watched]
        try:
            attempt()
        except Exception:
            raised = True
        else:
            raised = False
        self.res.count("fault:" + fault)
        self.seen.append(fault)
        require(self.res, "refused", raised, f"{what} was accepted")
        for w, d in zip(watched, before):
            require(self.res, "unmoved", same(d, digest(w)), f"{what} was refused, but {type(w).__name__} changed")

    def accept(self, what, attempt):
        try:
            out = attempt()
        except Exception as e:
            require(self.res, "accepted", False, f"{what} was refused: {type(e).__name__} {e}")
        require(self.res, "accepted", True)
        return out


# ---- places off a line ----------------------------------------------------------------------------

def distance(x, pts):
    best = np.inf
    for a, b in zip(pts[:-1], pts[1:]):
        w = b - a
        q = np.clip(np.dot(x - a, w)/np.dot(w, w), 0, 1)
        best = min(best, np.linalg.norm(a + q*w - x))
    return best


def off(rng, b):
    """A place clearly off the polyline: aside, beyond an end, or on the extension of an inner stretch."""
    pts, L = b.points, b.length
    while True:
        style = int(rng.integers(4))
        if style == 0:
            x = b.at(float(rng.uniform(0, 1))) + rng.normal(size=3)*L*10**rng.uniform(-1.5, .5)
        elif style == 1:
            w = pts[0] - pts[1]
            x = pts[0] + w/np.linalg.norm(w)*L*10**rng.uniform(-1.5, .5)
        elif style == 2:
            w = pts[-1] - pts[-2]
            x = pts[-1] + w/np.linalg.norm(w)*L*10**rng.uniform(-1.5, .5)
        else:
            k = int(rng.integers(len(pts) - 1))
            w = pts[k+1] - pts[k]
            x = pts[k] + w*float(rng.choice([-1, 1]))*rng.uniform(1.1, 3)
        if distance(x, pts) > .02*L:
            return x


def geometry(rng, cells=(8, 26)):
    return gen.geometry(rng, cells, scale=10**rng.uniform(0, 1))


# ---- kinds ----------------------------------------------------------------------------------------

def line(job, rng, res):
    """Construction of one line."""
    import src.mtl as mtl
    inj = Injector(res)
    n = int(rng.integers(1, 5))
    pts, ndiv = geometry(rng)
    L, C = gen.lc(rng, n)
    R, G = np.diag(rng.uniform(.1, 2, size=n)), np.diag(rng.uniform(1e-4, 1e-2, size=n))
    zs, zl = rng.uniform(10, 300, size=n), rng.uniform(10, 300, size=n)
    good = dict(l=L, c=C, r=R, g=G, node_positions=pts, ndiv=list(ndiv), Zs=zs, Zl=zl, name="line")
    f = dict(good, l=float(L[0, 0]), c=float(C[0, 0]), r=1.0, g=1e-3, Zs=50.0, Zl=75.0)

    def build(base=good, **kw):
        return lambda: mtl.MTL(**dict(base, **kw))

    inj.accept("a line", build())
    inj.accept("a line of one conductor", build(f))
    inj.accept("a line with column impedances", build(Zs=zs.reshape(-1, 1), Zl=zl.reshape(-1, 1)))
    inj.accept("a lossless line", build(r=0.0, g=0.0))
    m = n + int(rng.integers(1, 3))
    big = lambda k: np.diag(rng.uniform(1e-10, 1e-6, size=k))
    bad = [("a larger C", dict(c=big(m))), ("a larger L", dict(l=big(m))), ("a larger R", dict(r=big(m))), ("a larger G", dict(g=big(m))),
           ("a matrix L and a number C", dict(c=1e-10)), ("a number L and a matrix C", dict(l=1e-7)),
           ("a rectangular L and C", dict(l=rng.uniform(size=(n, m)), c=rng.uniform(size=(n, m)))),
           ("a rectangular R", dict(r=rng.uniform(size=(n, m)))), ("a rectangular G", dict(g=rng.uniform(size=(n, m)))),
           ("a taller R", dict(r=rng.uniform(size=(m, n)))), ("a taller G", dict(g=rng.uniform(size=(m, n)))),
           ("a flat L and C", dict(l=np.diag(L).copy(), c=np.diag(C).copy())),
           ("L as text", dict(l="1e-7")), ("C as text", dict(c="1e-10")), ("R as text", dict(r="1.0")), ("G as text", dict(g="1.0")),
           ("no L", dict(l=None)), ("no C", dict(c=None)), ("no R", dict(r=None)), ("no G", dict(g=None)),
           ("L as a list", dict(l=L.tolist())), ("C as a list", dict(c=C.tolist())),
           ("R as a list", dict(r=R.tolist())), ("G as a list", dict(g=G.tolist()))]
    if n > 1:
        bad += [("a number R for several conductors", dict(r=1.0)), ("a number G for several conductors", dict(g=1e-3)),
                ("a smaller C", dict(c=big(n-1))), ("a smaller R", dict(r=big(n-1))), ("a smaller G", dict(g=big(n-1)))]
    for what, kw in bad:
        inj.refuse("matrices", what, build(**kw))
    bad = [("Zs too long", dict(Zs=rng.uniform(10, 99, size=m))), ("Zl too long", dict(Zl=rng.uniform(10, 99, size=m))),
           ("both too long", dict(Zs=rng.uniform(10, 99, size=m), Zl=rng.uniform(10, 99, size=m))),
           ("column too long", dict(Zs=rng.uniform(10, 99, size=(m, 1)), Zl=rng.uniform(10, 99, size=(m, 1)))),
           ("row too long", dict(Zs=rng.uniform(10, 99, size=(1, m)), Zl=rng.uniform(10, 99, size=(1, m)))),
           ("a number and an array", dict(Zs=50.0)), ("an array and a number", dict(Zl=50.0)),
           ("a column and a flat array", dict(Zs=zs.reshape(-1, 1)))]
    if n > 1:
        bad += [("both too short", dict(Zs=zs[1:], Zl=zl[1:])), ("Zs too short", dict(Zs=zs[1:])), ("Zl too short", dict(Zl=zl[1:])),
                ("matrices", dict(Zs=np.diag(zs), Zl=np.diag(zl))), ("a column and a row", dict(Zs=zs.reshape(-1, 1), Zl=zl.reshape(1, -1)))]
    for what, kw in bad:
        inj.refuse("end impedances", what, build(**kw))
    bad = [("one division too many", dict(ndiv=list(ndiv) + [4])), ("no divisions", dict(ndiv=[])),
           ("a stretch too many", dict(node_positions=np.vstack([pts, pts[-1] + pts[-1] - pts[-2]]))),
           ("two divisions too many", dict(ndiv=[3] + list(ndiv) + [4]))]
    k = int(rng.integers(len(ndiv)))
    bad.append(("a stretch without divisions", dict(ndiv=list(ndiv[:k]) + [0] + list(ndiv[k+1:]))))
    if len(ndiv) > 1:
        bad += [("one division too few", dict(ndiv=list(ndiv[:-1]))), ("a stretch too few", dict(node_positions=pts[:-1])),
                ("one number for several stretches", dict(ndiv=int(ndiv[0])))]
    for what, kw in bad:
        inj.refuse("divisions", what, build(**kw))
        inj.refuse("divisions", what, build(f, **kw))
    res.signature = ["line", n, list(map(int, ndiv)), len(inj.seen)]
    res.sample = {"conductors": n, "stretches": len(ndiv), "faults": len(inj.seen)}


def twins(p, start, rng):
    """Two equal simulations somewhere in the middle of a run."""
    sims = [Sim(p), Sim(p)]
    m = int(rng.integers(3, 12))
    for s in sims:
        step_on(s, p, m)
    return sims


def step_on(sim, p, m):
    if p.standalone:
        sim.top.dt = p.dt
        sim.top.run_until((m + .5)*p.dt)
    else:
        sim.top.run_until((m + .5)*p.dt, p.dt)


def same_run(res, sims, p, m=25):
    for s in sims:
        step_on(s, p, m)
    for b in p.bundles:
        for which in ("vprobes", "iprobes"):
            for x, y in zip(getattr(sims[0], which)[b.name], getattr(sims[1], which)[b.name]):
                require(res, "same run", np.array_equal(x.val, y.val) and np.array_equal(x.t, y.t),
                        f"bundle {b.name} runs differently after refused changes")


def finished(p, rng):
    gen.finish(rng, p, 2.0, None, 200)
    return p


def models(rng, z, T):
    m = gen.model(rng, z, T).doc()
    bad = []
    for a in ("poles", "residues"):
        for part in ("real", "imag"):
            w = copy.deepcopy(m)
            w[a][part] = w[a][part] + [-1e9]
            bad.append((f"one {part} part of the {a} too many", w))
    w = copy.deepcopy(m)
    for part in ("real", "imag"):
        w["poles"][part] = w["poles"][part] + [-1e9]
    bad.append(("a pole without a residue", w))
    return m, bad


def standalone(job, rng, res):
    """Probes and connectors of a line on its own."""
    inj = Injector(res)
    pts, ndiv = geometry(rng)
    p = gen.standalone(rng, connectors=3)
    b = p.bundles[0]
    b.points, b.ndiv = pts, ndiv
    ln = b.lines[0]
    z, T = np.sqrt(ln.l[0, 0]/ln.c[0, 0]), b.length/1e8
    ln.connectors, b.rloc, b.gloc = [], [], []
    gen.add_connectors(rng, b, ln, int(rng.integers(1, 4)), z, T)
    finished(p, rng)
    sims = twins(p, None, rng)
    sim, obj = sims[0], sims[0].top
    for kind in ("voltage", "current"):
        for _ in range(3):
            x = off(rng, b)
            inj.refuse("probe off the line", f"a {kind} probe at {x}", lambda: obj.add_probe(x, kind), [obj])
    m, bad = models(rng, z, T)
    for _ in range(3):
        x = off(rng, b)
        c = int(rng.integers(ln.n))
        inj.refuse("connector off the line", f"a connector at {x}", lambda: obj.add_dispersive_connector(x, c, m), [obj])
    for what, w in bad:
        x = b.at(float(rng.uniform(0, 1)))
        inj.refuse("matrices", "a connector model with " + what, lambda: obj.add_dispersive_connector(x, 0, w), [obj])
    u = b.nodes()
    for c, x, _ in ln.connectors:
        k = min(b.nearest(x), len(u) - 2)
        # the same cell, wherever in it: next to the node the connector was put at
        near = [x, u[k] + .3*(u[k+1] - u[k])]
        if k > 0:
            near.append(u[k] + .3*(u[k-1] - u[k]))
        if k == len(u) - 2:
            near += [u[-1], u[-1] + .2*(u[-2] - u[-1])]
        for y in near:
            inj.refuse("second connector", f"a second connector on conductor {c} at {y}",
                       lambda: obj.add_dispersive_connector(y, c, m), [obj])
    same_run(res, sims, p)
    free = [(c, k) for c in range(ln.n) for k in range(1, len(u)-2)
            if not any(q == c and min(b.nearest(x), len(u)-2) == k for q, x, _ in ln.connectors)]
    c, k = free[int(rng.integers(len(free)))]
    inj.accept("a connector elsewhere", lambda: obj.add_dispersive_connector(u[k], c, m))
    inj.accept("a probe on the line", lambda: obj.add_probe(b.at(float(rng.uniform(0, 1))), "voltage"))
    # places given as a number, along z
    import src.mtl as mtl
    length = float(10**rng.uniform(0, 1))
    K = int(rng.integers(5, 40))
    flat = mtl.MTL(l=1e-7, c=1e-10, length=length, ndiv=K, Zs=50.0, Zl=50.0)
    inj.accept("a probe at a number", lambda: flat.add_probe(float(rng.uniform(0, 1)*length), "voltage"))
    for x in (-float(rng.uniform(.02, 3))*length, length*float(rng.uniform(1.02, 4))):
        inj.refuse("probe off the line", f"a probe at {x} of {length}", lambda: flat.add_probe(x, "voltage"), [flat])
    res.signature = ["standalone", gen.describe(p)["bundles"], len(inj.seen)]
    res.sample = {"conductors": ln.n, "connectors": len(ln.connectors), "faults": len(inj.seen)}


def bundle(job, rng, res):
    """Probes, localized sources and couplings of a bundle; lines of different shape; equal names."""
    import src.mtl as mtl
    import src.mtln as mtln
    inj = Injector(res)
    depth = int(rng.integers(2, 5))
    while True:
        p = gen.single_bundle(rng, depth=depth, cells=(8, 16), max_n=2, transfers=2, local=1, media=0)
        b = p.bundles[0]
        if min(np.linalg.norm(np.diff(b.points, axis=0), axis=1)) > .3:
            break
    if p.steps < 3:
        raise Inconclusive("too short")
    z, T = np.sqrt(b.lines[0].l[0, 0]/b.lines[0].c[0, 0]), b.length/1e8
    sims = twins(p, None, rng)
    sim, obj = sims[0], sims[0].bundles["b0"]
    watched = [sim.top, obj]
    for kind in ("voltage", "current"):
        for _ in range(2):
            x = off(rng, b)
            inj.refuse("probe off the line", f"a {kind} probe at {x}", lambda: obj.add_probe(x, kind), watched)
    f = gen.waveform(rng, T)
    for pair in ("start", "end", "both"):
        a, e = np.sort(rng.uniform(0, 1, size=2))
        a, e = b.at(float(a)), b.at(float(e))
        if pair in ("start", "both"):
            a = off(rng, b)
        if pair in ("end", "both"):
            e = off(rng, b)
        c = int(rng.integers(b.n))
        inj.refuse("source off the line", f"a localized source from {a} to {e}",
                   lambda: obj.add_localized_longitudinal_field(a, e, c, f, "localized efield drive"), watched)
    m, bad = models(rng, z, T)
    m.update(direction="in")
    widths = [sum(l.n for l in lev) for lev in b.levels]
    apart = [(i, j) for i in range(depth) for j in range(depth) if abs(i - j) != 1]
    for q in rng.permutation(len(apart))[:5]:
        i, j = apart[q]
        ci, cj = int(rng.integers(widths[i])), int(rng.integers(widths[j]))
        for d in ("in", "out", "both"):
            w = dict(m, direction=d)
            inj.refuse("coupling", f"a coupling of levels {i} and {j}",
                       lambda: obj.add_transfer_impedance(i, [ci], j, [cj], w), watched)
            side = str(rng.choice(["initial", "end"]))
            inj.refuse("coupling", f"a connector coupling of levels {i} and {j}",
                       lambda: obj.set_connector_transfer_impedance(side, i, [ci], j, [cj], w), watched)
    lev = int(rng.integers(depth - 1))
    for d in ("inward", "", None, "IN"):
        w = dict(m, direction=d)
        inj.refuse("coupling kind", f"a coupling of direction {d!r}", lambda: obj.add_transfer_impedance(lev, [0], lev+1, [0], w), watched)
        inj.refuse("coupling kind", f"a connector coupling of direction {d!r}",
                   lambda: obj.set_connector_transfer_impedance("end", lev, [0], lev+1, [0], w), watched)
    inj.refuse("coupling kind", "a connector coupling at no end",
               lambda: obj.set_connector_transfer_impedance("middle", lev, [0], lev+1, [0], m), watched)
    for what, w in bad:
        w.update(direction=str(rng.choice(["in", "out", "both"])))
        inj.refuse("matrices", "a coupling with " + what, lambda: obj.add_transfer_impedance(lev, [0], lev+1, [0], w), watched)
        inj.refuse("matrices", "a connector coupling with " + what,
                   lambda: obj.set_connector_transfer_impedance("initial", lev, [0], lev+1, [0], w), watched)

    # bundles of lines that differ in shape
    lines = {k: [make_line(l, b) for l in level] for k, level in enumerate(b.levels)}
    inj.accept("a bundle", lambda: mtl.MTLD({k: list(v) for k, v in lines.items()}, name="ok"))
    k = int(rng.integers(depth))
    for what in ("moved", "stretched", "redivided", "bent", "mirrored"):
        q = copy.deepcopy(b)
        if what == "moved":
            q.points = q.points + rng.normal(size=3)*b.length*.1
        elif what == "stretched":
            q.points = q.points[0] + (q.points - q.points[0])*float(rng.choice([.5, 1.05, 2]))
        elif what == "redivided":
            s = int(rng.integers(len(q.ndiv)))
            q.ndiv = list(q.ndiv)
            q.ndiv[s] += int(rng.integers(1, 4))
        elif what == "bent":
            q.points = q.points.copy()
            q.points[int(rng.integers(len(q.points)))] += rng.normal(size=3)*b.length*.05
        else:
            q.points, q.ndiv = q.points[::-1].copy(), list(q.ndiv)[::-1]
        odd = make_line(q.levels[k][-1], q)
        mixed = {j: list(v) for j, v in lines.items()}
        mixed[k] = mixed[k][:-1] + [odd]
        if depth == 1:
            continue
        inj.refuse("shape", f"a bundle with a {what} line in level {k}", lambda: mtl.MTLD(mixed, name="odd"), list(mixed[k]))
    two = {0: [lines[0][0], make_line(b.levels[0][0], b)]}
    inj.refuse("shape", "a bundle of two lines in its outermost level", lambda: mtl.MTLD(two, name="two"))

    # equal names
    other = mtl.MTLD({0: [make_line(b.levels[0][0], b)]}, name="b0")
    inj.refuse("name", "a second bundle b0", lambda: sim.top.add_bundle(other), watched)
    inj.refuse("name", "two bundles of one name", lambda: mtln.MTLN([obj, other]), [obj, other])
    fine = mtl.MTLD({0: [make_line(b.levels[0][0], b)]}, name="b1")
    inj.accept("bundles of two names", lambda: mtln.MTLN([sims[1].bundles["b0"], fine]))
    same_run(res, sims, p)
    inj.accept("a coupling of neighbours", lambda: obj.add_transfer_impedance(lev, [0], lev+1, [0], m))
    inj.accept("a localized source", lambda: obj.add_localized_longitudinal_field(b.at(.2), b.at(.7), 0, f, "localized efield drive"))
    res.signature = ["bundle", gen.describe(p)["bundles"], len(inj.seen)]
    res.sample = {"levels": widths, "faults": len(inj.seen)}


def network(job, rng, res):
    """Nodes and interconnections."""
    import src.networks as networks
    import src.mtl as mtl
    inj = Injector(res)
    p = gen.junction_problem(rng, max_n=3, depth=int(rng.integers(1, 3)), media=0)
    sims = twins(p, None, rng)
    sim = sims[0]
    f = gen.waveform(rng, p.steps*p.dt)
    desc0 = {"connectorType": "Conn_R"}

    # interconnections of networks that exist
    for netd, net in zip(sim.nets, p.nets):
        for nw in netd.levels.values():
            ids = list(nw.connections)
            known = [int(x) for x in rng.permutation(ids)]
            unknown = [x for x in range(max(ids) + 3, max(ids) + 6)] + [-1]
            a, u = known[0], int(rng.choice(unknown))
            R = float(10**rng.uniform(0, 3))
            watched = [nw, sim.top]
            for drive in ((), (f,)):
                inj.refuse("node", f"a resistor at unknown node {u}", lambda: nw.connect_to_ground(u, R, *drive), watched)
                inj.refuse("node", f"a resistor at unknown node {u}", lambda: nw.connect_to_ground_R(u, R, *drive), watched)
                inj.refuse("node", f"a capacitor at unknown node {u}", lambda: nw.connect_to_ground_C(u, 1e-12, *drive), watched)
                inj.refuse("node", f"an LCpRs at unknown node {u}", lambda: nw.connect_to_ground_LCpRs(u, R, 1e-9, 1e-12, *drive), watched)
                inj.refuse("node", f"a short at unknown node {u}", lambda: nw.short_to_ground(u, *drive), watched)
                for x, y in ((a, u), (u, a), (u, u)):
                    inj.refuse("node", f"a resistor between {x} and {y}", lambda: nw.connect_nodes(x, y, R, *drive), watched)
                    inj.refuse("node", f"a short between {x} and {y}", lambda: nw.short_nodes(x, y, *drive), watched)
                if len(known) > 1:
                    for zero in (0, 0.0, -0.0):
                        inj.refuse("interconnection", f"zero ohms between {known[0]} and {known[1]}",
                                   lambda: nw.connect_nodes(known[0], known[1], zero, *drive), watched)

    # networks described wrongly
    b = p.bundles[int(rng.integers(len(p.bundles)))]
    obj = sim.bundles[b.name]
    spec = max(b.levels[0], key=lambda l: l.n)
    ln = sim.lines[spec.name]
    other = next(x for x in p.bundles if x is not b)
    oln, oobj = sim.lines[other.levels[0][0].name], sim.bundles[other.name]

    def describe(ids, oids=None, side="S"):
        d = {ln: {"side": side, "bundle": obj, "connections": [[i, c, dict(desc0)] for c, i in enumerate(ids)]}}
        if oids:
            d[oln] = {"side": "L", "bundle": oobj, "connections": [[i, c, dict(desc0)] for c, i in enumerate(oids)]}
        return d

    ids = [int(x) for x in rng.permutation(40)[:spec.n]]
    oids = [int(x) + 50 for x in rng.permutation(40)[:oln.number_of_conductors]]
    watched = [sim.top]
    inj.accept("a network", lambda: networks.Network(describe(ids, oids, str(rng.choice(["S", "L"])))))
    for k in range(len(ids)):
        wrong = list(ids)
        wrong[k] = -int(rng.integers(1, 9))
        inj.refuse("node", f"node {wrong[k]}", lambda: networks.Network(describe(wrong, oids)), watched)
        if len(ids) > 1:
            wrong = list(ids)
            wrong[k] = wrong[k-1]
            inj.refuse("node", f"node {wrong[k]} twice on a line", lambda: networks.Network(describe(wrong, oids)), watched)
        wrong = list(oids)
        wrong[int(rng.integers(len(wrong)))] = ids[k]
        inj.refuse("node", f"node {ids[k]} on two lines", lambda: networks.Network(describe(ids, wrong)), watched)
    for side in ("X", "s", "", None, 0):
        inj.refuse("node", f"nodes at end {side!r}", lambda: networks.Network(describe(ids, None, side)), watched)

    # a network of a bundle the model does not have
    q = copy.deepcopy(other)
    stray_line = make_line(q.levels[0][0], q)
    stray = mtl.MTLD({0: [stray_line]}, name="stray")
    sd = {stray_line: {"side": "S", "bundle": stray,
                       "connections": [[i, c, dict(desc0)] for c, i in enumerate(oids)]}}
    nd = networks.NetworkD({0: networks.Network(sd)})
    inj.refuse("unknown bundle", "a network of a bundle that is not in the model", lambda: sim.top.add_network(nd), watched)
    inj.refuse("unknown bundle", "networks of a bundle that is not in the model", lambda: sim.top.add_networks([nd]), watched)
    same_run(res, sims, p)
    res.signature = ["network", gen.describe(p)["bundles"], gen.describe(p)["elements"], len(inj.seen)]
    res.sample = {"bundles": len(p.bundles), "networks": len(p.nets), "faults": len(inj.seen)}


# ---- documents ------------------------------------------------------------------------------------

SHAPES = [dict(bundles=1, depth=1, lumped=3, distributed=2), dict(bundles=1, depth=2, lumped=3, distributed=2, ends=True),
          dict(bundles=2, depth=1, lumped=3, distributed=1), dict(bundles=2, depth=2, lumped=2, distributed=2, ends=True),
          dict(bundles=3, depth=1, lumped=1, shorts=True)]


def document(job, rng, res):
    from src.jsonParser import Parser
    inj = Injector(res)
    B = doc.make(rng, **SHAPES[int(rng.integers(len(SHAPES)))])
    good = B.document()
    text = copy.deepcopy(good)

    def load(d, run=False):
        with tempfile.TemporaryDirectory(prefix="c22_") as tmp:
            parser = Parser(doc.write(os.path.join(tmp, "model.smb.json"), d))
        if run:
            parser.run(3.5*B.problem.dt, B.problem.dt)
        return parser

    inj.accept("the document", lambda: load(copy.deepcopy(good), run=True))
    m = good["model"]
    pick = lambda xs: int(rng.integers(len(xs)))
    free = 10000 + int(rng.integers(1000))

    def spoil(fault, what, edit, run=False):
        d = copy.deepcopy(good)
        if edit(d["model"]) is False:
            return
        inj.refuse(fault, what, lambda: load(d, run))

    # sources of unknown kind
    sources = m.get("sources", [])
    for kind in ("TerminalSource", "DistributedSource"):
        mine = [k for k, s in enumerate(sources) if s["sourceType"] == kind]
        if not mine:
            continue
        k = mine[pick(mine)]
        for bad in ("square-ish", "", "Gaussian", None):
            spoil("document source", f"{kind} with magnitude {bad!r}", lambda x: x["sources"][k]["magnitude"].update(type=bad))
        for bad in ("Terminal", "", None):
            spoil("document source", f"source of type {bad!r}", lambda x: x["sources"][k].update(sourceType=bad))
        spoil("document reference", f"{kind} at an unknown node", lambda x: x["sources"][k].update(elemIds=[free, free+1]))
        if kind == "DistributedSource":
            for bad in ("efield", "", None):
                spoil("document source", f"distributed source of type {bad!r}", lambda x: x["sources"][k].update(type=bad))
            spoil("document reference", "distributed source on an unknown cable", lambda x: x["sources"][k].update(cable="nowhere"))
            spoil("document reference", "distributed source to an unknown node",
                  lambda x: x["sources"][k].update(elemIds=[x["sources"][k]["elemIds"][0], free]))

    # references to what is not there
    cables = m["cables"]
    k = pick(cables)
    for key in ("materialId", "initialConnectorId", "endConnectorId"):
        spoil("document reference", f"cable with unknown {key}", lambda x: x["cables"][k].update({key: free}))
    spoil("document reference", "cable of unknown elements", lambda x: x["cables"][k].update(elemIds=[free + q for q in range(len(cables[k]["elemIds"]))]))
    for key in ("line", "polyline"):
        els = m["elements"].get(key, [])
        if els:
            e = pick(els)

            def wrong(x, e=e, key=key):
                w = x["elements"][key][e].split()
                w[-1 if rng.random() < .5 else 3] = str(free)
                x["elements"][key][e] = " ".join(w)
            spoil("document reference", f"{key} through an unknown coordinate", wrong)
    for key, inner in (("terminations", "coordIds"), ("junctions", "unitedCoordIds")):
        if m.get(key):
            e = pick(m[key])

            def wrong(x, e=e, key=key, inner=inner):
                ids = x[key][e][inner]
                row = ids[int(rng.integers(len(ids)))]
                row[int(rng.integers(len(row)))] = free
            spoil("document reference", f"{key} of an unknown coordinate", wrong)

            def stray(x, e=e, key=key, inner=inner):
                x["coordinates"].append(f"{free} 0.1 0.2 0.3")
                wrong(x, e, key, inner)
            spoil("document reference", f"{key} of a coordinate no cable reaches", stray)
    if m.get("probes"):
        e = pick(m["probes"])
        spoil("document reference", "probe at an unknown node", lambda x: x["probes"][e].update(elemIds=[free]))
        spoil("document reference", "probe on an unknown cable", lambda x: x["probes"][e].update(cable="nowhere"))
    if m.get("lumpedElements"):
        e = pick(m["lumpedElements"])
        spoil("document reference", "lumped element of unknown material", lambda x: x["lumpedElements"][e].update(materialId=free))
        spoil("document reference", "lumped element on an unknown cable", lambda x: x["lumpedElements"][e].update(cable="nowhere"))
        spoil("document reference", "lumped element at an unknown coordinate", lambda x: x["lumpedElements"][e].update(coordIds=[free]))
        spoil("document shape", "two lumped elements in one place",
              lambda x: x["lumpedElements"].append(copy.deepcopy(x["lumpedElements"][e])))
    if m.get("cableEnds"):
        e = pick(m["cableEnds"])
        spoil("document reference", "cable end of unknown material", lambda x: x["cableEnds"][e].update(materialId=free))
        spoil("document reference", "cable end at an unknown coordinate", lambda x: x["cableEnds"][e].update(coordIds=[free]))

    def unknown_nest(x):
        w = x["bundles"][pick(x["bundles"])]
        if isinstance(w["nestedElemIds"], dict):
            w["nestedElemIds"] = {str(free): v for v in list(w["nestedElemIds"].values())[:1]}
        else:
            w["nestedElemIds"] = str(free)
    spoil("document reference", "bundle of an unknown element", unknown_nest)

    # connectors of unknown kind, at terminations and junctions
    used = {c[s + "ConnectorId"] for c in cables for s in ("initial", "end")}
    conns = [q for q, w in enumerate(m["materials"]) if w["materialType"] == "Connector" and w["materialId"] in used]
    for q in (conns[int(x)] for x in rng.permutation(len(conns))[:3]):
        for bad in ("Conn_X", "", None):
            spoil("document connector", f"connector of type {bad!r}", lambda x: x["materials"][q].update(connectorType=bad))
        if m["materials"][q]["connectorType"] == "MultiwireConnector":
            def wrong(x):
                w = x["materials"][q]["connections"]
                w[int(rng.integers(len(w)))] = "Conn_X"
            spoil("document connector", "a wire of a connector of unknown type", wrong)

    # directions of transfer impedances
    for q, w in enumerate(m["materials"]):
        if w.get("transferImpedance") and w["materialType"] != "Connector":
            zt = w["transferImpedance"]
            if zt["cte"] == 0 and zt["prop"] == 0 and not zt["poles"]["real"]:
                continue
            if not parents_with(m, w["materialId"]):
                continue
            spoil("document source", "transfer impedance of unknown direction",
                  lambda x: x["materials"][q]["transferImpedance"].update(direction="sideways"))

    # shapes
    spoil("document shape", "a division too many", lambda x: x["cables"][k].update(ndiv=list(np.atleast_1d(cables[k]["ndiv"]).tolist()) + [3]))
    w = next(q for q, w in enumerate(m["materials"]) if w["materialType"] != "Connector" and w["materialId"] == cables[k]["materialId"])
    caps = next(key for key in m["materials"][w] if "capacitance" in key)
    if isinstance(m["materials"][w][caps], list):
        n = len(m["materials"][w][caps])
        spoil("document shape", "a larger capacitance matrix", lambda x: x["materials"][w].update({caps: (np.eye(n+1)*1e-10).tolist()}))
    else:
        spoil("document shape", "capacitances of another kind", lambda x: x["materials"][w].update({caps: [[1e-10]]}))
    if m.get("probes"):
        e = pick(m["probes"])

        def away(x):
            # a node of its own, off every cable
            pts = np.concatenate([b.points for b in B.problem.bundles])
            size = np.max(np.linalg.norm(pts - pts.mean(axis=0), axis=1))
            at = pts.mean(axis=0) + np.array([1.7, 2.3, -1.9])*size
            x["coordinates"].append(f"{free} {at[0]!r} {at[1]!r} {at[2]!r}".replace("np.float64(", "").replace(")", ""))
            x["elements"].setdefault("node", []).append(f"{free} 0 0 {free}")
            x["probes"][e].update(elemIds=[free], cable=cables[k]["name"])
        spoil("document shape", "a probe off its cable", away)
    if len(m["bundles"]) > 1:
        spoil("name", "bundles of one name", lambda x: x["bundles"][1].update(name=x["bundles"][0]["name"]), run=True)
    require(res, "unmoved", good == text, "the document changed")
    res.signature = ["document", gen.describe(B.problem)["bundles"], sorted(set(inj.seen)), len(inj.seen)]
    res.sample = {"bundles": len(m["bundles"]), "faults": len(inj.seen)}


def parents_with(m, mat):
    """Whether a cable of this material has cables inside."""
    inside = set()

    def walk(tree):
        if isinstance(tree, dict):
            for key, sub in tree.items():
                if sub:
                    inside.add(int(key))
                walk(sub)
    for b in m["bundles"]:
        walk(b["nestedElemIds"])
    return any(set(c["elemIds"]) & inside for c in m["cables"] if c["materialId"] == mat)


def run_job(job, res):
    rng = gen.rng_of(job)
    {"line": line, "standalone": standalone, "bundle": bundle, "network": network, "document": document}[job["kind"]](job, rng, res)
