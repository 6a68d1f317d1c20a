"""C04: Kirchhoff and component laws at every network node, evaluated on recorded histories; the
reference network model; Laplace-domain circuit theory; indifference to the order of description."""
import numpy as np

from lib import fd, gen, refsim, staged
from lib.build import Sim
from lib.compare import against_reference, chunks_of, scales, simulate_and_compare
from lib.core import Inconclusive, expect
from lib.spec import NetSpec, Problem
from lib.transform import map_sources

PROPERTY = "C04"
TECHNIQUE = 'runtime monitor: Kirchhoff and element laws evaluated on recorded histories, reference network simulator, Laplace-domain and DC oracles'
LEVEL_NOTE = 'Observes each network node at each step of seeded random networks; ideal shorts are compared within 1e-2 because the code models them as 1e10 S.'
RULE = ("a case is one set of bundles with random termination and junction networks; non-trivial when excited; distinct "
        "by shape and element lists")
ASSUMPTIONS = ["ideal shorts between nodes are a 1e10 S conductance in the code: compared with an ideal short within 1e-2; "
               "everything else within 1e-7 of the largest value",
               "one termination network per line end, every conductor of the line in it"]
MUST_OBSERVE = {"oracle:kirchhoff": 40, "oracle:reference": 60, "oracle:shorted": 4, "oracle:theory": 6, "oracle:order": 4, "oracle:later": 8, "driven shorts": 10}


def jobs(tier, rng):
    return gen.jobs_from({"ends": (40, 350), "levels": (16, 150), "junction": (36, 320), "junction-levels": (14, 120),
                          "dense": (16, 150), "shorts": (12, 100), "long": (3, 20), "theory": (14, 80),
                          "order": (10, 80), "dc": (6, 40), "later": (16, 130)}, tier, rng)


def dense(rng):
    """Many elements on the same nodes."""
    p = gen.junction_problem(rng, count=int(rng.integers(2, 4)), max_n=2)
    T = p.steps*p.dt
    for net in p.nets:
        ids = list(net.nodes)
        z = 100.0
        for _ in range(int(rng.integers(2, 6))):
            a = ids[int(rng.integers(len(ids)))]
            if any(e[0] == "short" and e[1] == a for e in net.elements):
                continue
            kind = rng.integers(4)
            src = gen.waveform(rng, T) if rng.random() < .4 else None
            if kind == 0:
                net.elements.append(("R", a, gen.resistor(rng, z), src))
            elif kind == 1:
                net.elements.append(("C", a, float(T/z*10**rng.uniform(-2.5, -1)), src))
            else:
                c = ids[int(rng.integers(len(ids)))]
                la = next(k for k, lev in enumerate(p.bundle(net.nodes[a][0]).levels) if any(l is net.nodes[a][1] for l in lev))
                lc = next(k for k, lev in enumerate(p.bundle(net.nodes[c][0]).levels) if any(l is net.nodes[c][1] for l in lev))
                if c != a and la == lc:
                    net.elements.append(("RR", a, c, gen.resistor(rng, z), src))
    return p


def make(kind, rng):
    if kind == "ends":
        return gen.single_bundle(rng, max_n=4)
    if kind == "levels":
        return gen.single_bundle(rng, depth=int(rng.integers(2, 4)), max_n=3, transfers=int(rng.integers(0, 2)))
    if kind == "junction":
        return gen.junction_problem(rng, count=int(rng.integers(2, 5)))
    if kind == "junction-levels":
        return gen.junction_problem(rng, depth=2, max_n=2)
    if kind == "dense":
        return dense(rng)
    if kind == "shorts":
        return gen.junction_problem(rng, shorts=True)
    if kind == "long":
        return gen.junction_problem(rng, count=2, max_n=2, transits=40, max_steps=2000, cells=(6, 10))
    if kind == "theory":
        p = gen.junction_problem(rng, cells=(26, 36), transits=3.0, max_n=2, max_steps=500) if rng.random() < .5 else \
            gen.single_bundle(rng, cells=(26, 36), transits=4.0, max_n=2, max_steps=500)
        T = p.steps*p.dt

        def starts_at_rest(k, f):
            # what a capacitor drives depends on the source before time zero: nothing there
            s0 = T*rng.uniform(.015, .04)
            return gen.gaussian(float(rng.choice([-1, 1])*10**rng.uniform(-1, 1)), s0*rng.uniform(6.5, 9), s0)
        return map_sources(p, starts_at_rest)
    if kind == "order":
        return gen.junction_problem(rng)


def kirchhoff(res, p, got):
    """Sum of currents at every node of every network, each step, from recorded voltages and currents only."""
    dt = p.dt
    t = np.arange(p.steps)*dt
    rbs = {b.name: refsim.RefBundle(b, dt) for b in p.bundles}

    def rec(nid, net):
        bn, ln, c, s = net.nodes[nid]
        return got[bn][0][:, rbs[bn].b.offset(ln)+c, 0 if s == "S" else -1]

    def before(x, m=1):
        return np.concatenate([np.zeros(m), x[:-m]])

    def samples(f, lag):
        return np.array([f(x - lag*dt) for x in t]) if f is not None else np.zeros(p.steps)

    def driven(f):
        """What an ideal short with this source imposes: the mean of two steps is the mean of the source."""
        both, v = samples(f, 0) + samples(f, 1), np.zeros(p.steps)
        for k in range(p.steps):
            v[k] = both[k] - (v[k-1] if k else 0.0)
        return v
    vscale = max(np.max(np.abs(h[0])) for h in got.values())
    floor = 1e-8*max(np.max(np.abs(h[1])) for h in got.values())      # below: only rounding gets there
    for net in p.nets:
        shorted = {e[1]: e[2] for e in net.elements if e[0] == "short"}
        loose = {x for e in net.elements if e[0] == "SS" for x in e[1:3]}
        into = {nid: np.zeros(p.steps) for nid in net.nodes}
        size = {nid: np.zeros(p.steps) for nid in net.nodes}

        def add(nid, cur):
            into[nid] += cur
            size[nid] = np.maximum(size[nid], np.abs(cur))
        for nid, (bn, ln, c, s) in net.nodes.items():
            rb = rbs[bn]
            V, I = got[bn]
            k = 0 if s == "S" else -1
            o = rb.b.offset(ln)
            v1 = V[:, o:o+ln.n, k]
            v0 = np.concatenate([np.zeros((1, ln.n)), v1[:-1]])
            add(nid, -rb.du[k]/2*(v1 - v0) @ rb.C[k][o+c, o:o+ln.n]/dt)
            add(nid, -rb.du[k]/2*(v1 + v0)/2 @ rb.G[k][o+c, o:o+ln.n])
            add(nid, (-1.0 if s == "S" else 1.0)*before(I[:, o+c, k]))
        for e in net.elements:
            if e[0] == "R":
                v = rec(e[1], net)
                add(e[1], (samples(e[3], 0) + samples(e[3], 1) - v - before(v))/2/e[2])
            elif e[0] == "C":
                v = rec(e[1], net)
                add(e[1], e[2]/dt*(samples(e[3], 0) - samples(e[3], 2) - v + before(v, 2))/2)
            elif e[0] == "LCpRs":
                R, L, C = e[2:5]
                v = rec(e[1], net)
                u = samples(e[5], 0)
                # branch voltage x across L||C, from its own law driven by the recorded voltage
                M = np.linalg.inv(np.eye(2) - dt*np.array([[-1/(R*C), -1/C], [1/L, 0]]))
                x = np.zeros(2)
                cur = np.zeros(p.steps)
                old = 0.0
                s1 = samples(e[5], 1)
                vb = before(v)
                for k in range(p.steps):
                    i_old = (x[0] - vb[k] + s1[k])/R
                    x = M @ (x + dt*np.array([(v[k] - u[k])/(R*C), 0]))
                    cur[k] = ((x[0] - v[k] + u[k])/R + i_old)/2
                add(e[1], cur)
            elif e[0] == "RR":
                a, b = rec(e[1], net), rec(e[2], net)
                cur = (b + before(b) - a - before(a) + samples(e[4], 0) + samples(e[4], 1))/2/e[3]
                add(e[1], cur)
                add(e[2], -cur)
        for e in net.elements:
            if e[0] == "SS":
                gap = driven(e[3])
                expect(res, "shorted", np.max(np.abs(rec(e[1], net) - rec(e[2], net) - gap))/max(vscale, np.max(np.abs(gap))), 1e-2,
                       f"nodes {e[1:3]} are shorted{' by a source' if e[3] else ''}")
                res.count("driven shorts", int(e[3] is not None))
        groups = []
        for nid in net.nodes:
            if nid in shorted:
                expect(res, "shorted", np.max(np.abs(rec(nid, net) - driven(shorted[nid])))/vscale, 1e-6,
                       f"node {nid} is shorted to ground{' by a source' if shorted[nid] else ''}")
                res.count("driven shorts", int(shorted[nid] is not None))
                continue
            if nid in loose:
                continue
            worst = int(np.argmax(np.abs(into[nid])))
            scale = max(np.max(size[nid]), floor)
            if scale > 0:
                expect(res, "kirchhoff", abs(into[nid][worst])/scale, 1e-6,
                       f"currents into node {nid} {net.nodes[nid][0]}[{net.nodes[nid][2]}]{net.nodes[nid][3]} at step {worst} "
                       f"sum to {into[nid][worst]:.4g} (largest {scale:.4g}); elements {[e[0] for e in net.elements if nid in e[1:3]]}")
                res.count("node balances checked", p.steps)
        # nodes joined by ideal shorts: their currents balance together
        parent = {x: x for x in loose}

        def find(x):
            while parent[x] != x:
                x = parent[x]
            return x
        for e in net.elements:
            if e[0] == "SS":
                parent[find(e[1])] = find(e[2])
        for root in {find(x) for x in loose}:
            members = [x for x in loose if find(x) == root]
            if any(x in shorted for x in members):
                continue
            scale = max(floor, *(np.max(size[x]) for x in members))
            if scale > 0:
                expect(res, "kirchhoff-shorted", np.max(np.abs(sum(into[x] for x in members)))/scale, 2e-2,
                       f"currents into the shorted nodes {members}")


def run_dc(job, rng, res):
    """Constant sources settle to the resistive circuit of the whole network."""
    p = gen.junction_problem(rng, count=2, max_n=2, cells=(6, 10), sources=False, rich=False, lossy=False)
    z = 100.0
    amp = {}
    Tt = max(b.length/gen.vmin(l) for b in p.bundles for l in b.lines)
    drive = {}
    for net in p.nets:
        out = []
        for e in net.elements:
            if e[0] == "R":
                A = float(rng.uniform(-3, 3))
                out.append(("R", e[1], float(z*rng.uniform(.5, 2)), gen.ramp(A, 3*Tt)))
                drive[out[-1][3]] = A
            elif e[0] == "RR":
                A = float(rng.uniform(-3, 3))
                out.append(("RR", e[1], e[2], float(z*rng.uniform(.1, 2)), gen.ramp(A, 3*Tt)))
                drive[out[-1][4]] = A
        net.elements = out
    p.dt *= .9
    p.steps = int(min(80*Tt/p.dt, 5000))
    if p.steps*p.dt < 25*Tt:
        raise Inconclusive("too slow to settle")
    got = Sim(p).run()
    # lossless conductors join their two ends
    nodes = {}
    for b in p.bundles:
        for ln in b.lines:
            for c in range(ln.n):
                nodes[(b.name, b.offset(ln)+c)] = len(nodes)
    N = len(nodes)
    M, r = np.zeros((N, N)), np.zeros(N)
    for net in p.nets:
        at = {nid: nodes[(bn, p.bundle(bn).offset(ln)+c)] for nid, (bn, ln, c, s) in net.nodes.items()}
        for e in net.elements:
            if e[0] == "R":
                a = at[e[1]]
                M[a, a] += 1/e[2]
                r[a] += drive[e[3]]/e[2]
            else:
                a, b = at[e[1]], at[e[2]]
                for x, y in ((a, b), (b, a)):
                    M[x, x] += 1/e[3]
                    M[x, y] -= 1/e[3]
                r[a] += drive[e[4]]/e[3]
                r[b] -= drive[e[4]]/e[3]
    v = np.linalg.solve(M, r)
    for (bn, c), k in nodes.items():
        V = got[bn][0][-400:, c, :].mean(axis=0)
        expect(res, "dc", np.max(np.abs(V - v[k]))/np.max(np.abs(v)), 3e-2, f"steady voltage of {bn}[{c}]: {V[[0, -1]]}, circuit {v[k]}")
    res.signature = gen.describe(p)


def run_job(job, res):
    rng = gen.rng_of(job)
    kind = job["kind"]
    if kind == "dc":
        return run_dc(job, rng, res)
    if kind == "later":                        # elements connected between runs
        p = make(str(rng.choice(["ends", "levels", "junction", "dense"])), rng)
        staged.run(rng, res, p, ("elements", "step"), oracle="later")
        res.signature = gen.describe(p)
        return
    p = make(kind, rng)
    sim, got, ref = simulate_and_compare(res, p, rng, tol=1e-2 if kind == "shorts" else 1e-7,
                                         oracle="reference")
    kirchhoff(res, p, got)
    if kind == "theory":
        fd.compare(res, p, got, rng, oracle="theory", tol=0.25)
    if kind == "order":
        q = Problem([p.bundles[k] for k in rng.permutation(len(p.bundles))],
                    [reorder(p.nets[k], rng) for k in rng.permutation(len(p.nets))], p.dt, p.steps)
        other = Sim(q).run(chunks_of(rng, p.steps))
        against_reference(res, other, got, 1e-7, "order")
    res.signature = gen.describe(p)
    res.sample = {"problem": res.signature, "max": scales(ref)}


def reorder(net, rng):
    ids = list(net.nodes)
    ids = [ids[k] for k in rng.permutation(len(ids))]
    rename = {nid: int(x) for nid, x in zip(ids, rng.permutation(1000)[:len(ids)])}
    els = []
    for k in rng.permutation(len(net.elements)):
        e = list(net.elements[k])
        e[1] = rename[e[1]]
        if e[0] in ("RR", "SS"):
            e[2] = rename[e[2]]
            if rng.random() < .5 and e[-1] is None:
                e[1], e[2] = e[2], e[1]
        els.append(tuple(e))
    return NetSpec({rename[i]: net.nodes[i] for i in ids}, els)
