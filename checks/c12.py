"""C12: what probes return against the reference history, their stamps, and runs with and without probes."""
import numpy as np

from lib import gen, refsim
from lib.build import Sim
from lib.core import Inconclusive, expect, require

PROPERTY = "C12"
TECHNIQUE = "runtime monitor: every probe record and time stamp compared with an independent history of the line; runs with and without probes compared exactly"
LEVEL_NOTE = "Observes every sample of probes at random places, kinds, numbers and times of attachment; exploration over seeded random models."
RULE = "a case is one model with random probes and a random sequence of runs; non-trivial when the records are not zero; distinct by shape and probes"
ASSUMPTIONS = ["places half way between two nodes are avoided", "durations that are whole multiples of the step are avoided (rounding)"]
MUST_OBSERVE = {"probes checked": 150, "oracle:stamps": 150, "oracle:record": 150, "oracle:unobtrusive": 15}


def jobs(tier, rng):
    return gen.jobs_from({"line": (36, 300), "bundle": (24, 200), "network": (24, 200), "steps": (16, 120),
                          "unobtrusive": (20, 150), "default-line": (10, 80)}, tier, rng)


def make(kind, rng):
    if kind in ("line", "steps"):
        return gen.standalone(rng, per_cell=rng.random() < .2, max_steps=120, connectors=int(rng.integers(0, 2)))
    if kind == "bundle":
        return gen.single_bundle(rng, depth=int(rng.integers(1, 3)), transfers=1, max_steps=120, max_n=3)
    if kind == "network":
        return gen.junction_problem(rng, max_steps=120)
    return gen.standalone(rng, max_steps=100) if rng.random() < .4 else gen.junction_problem(rng, max_steps=100)


class Watch:
    def __init__(self, rng, b, obj, start):
        self.b, self.start = b, start
        u = b.nodes()
        K = len(u) - 1
        self.kind = str(rng.choice(["voltage", "current"]))
        style = rng.integers(4)
        if style == 0:
            self.k = int(rng.choice([0, K]))
            x = u[self.k].copy()
        elif style == 1:
            self.k = int(rng.integers(K+1))
            x = u[self.k].copy()
        else:
            seg = int(rng.integers(K))
            f = float(rng.uniform(0, .45) if rng.random() < .5 else rng.uniform(.55, 1))
            x = u[seg] + f*(u[seg+1] - u[seg])
            d = np.linalg.norm(u - x, axis=1)
            o = np.argsort(d)
            if d[o[1]] - d[o[0]] < 1e-6*b.length:
                x = u[seg].copy()
                d = np.linalg.norm(u - x, axis=1)
                o = np.argsort(d)
            self.k = int(o[0])
        self.x = x
        self.probe = obj.add_probe(x if rng.random() < .8 else list(x), self.kind)


def run_job(job, res):
    rng = gen.rng_of(job)
    kind = job["kind"]
    if kind == "unobtrusive":
        return unobtrusive(rng, res)
    if kind == "default-line":
        return default_line(rng, res)
    p = make(kind, rng)
    ref, _ = refsim.run(p)
    sim = Sim(p, probes=False)
    watches = []

    def attach(m, start):
        for _ in range(m):
            b = p.bundles[int(rng.integers(len(p.bundles)))]
            watches.append(Watch(rng, b, sim.bundles[b.name], start))
    attach(int(rng.integers(1, 9)), 0)
    done = 0
    manual = kind == "steps"
    dt = p.dt
    while done < p.steps:
        m = min(p.steps - done, int(rng.integers(2, p.steps + 1)))
        T = (m + float(rng.uniform(.02, .98)))*dt
        if p.standalone:
            sim.top.dt = dt
            sim.top.run_until(T)
        elif rng.random() < .5 or done == 0:
            sim.top.run_until(T, dt)
        else:
            sim.top.run_until(T)
        extra = 0
        if manual and p.steps - done - m >= 2:
            extra = int(rng.integers(2, min(8, p.steps - done - m) + 1))
            for _ in range(extra):
                sim.top.step()
        for w in watches:
            check(res, w, ref, done, done + m + extra, dt, p)
        done += m + extra
        if rng.random() < .6:
            attach(int(rng.integers(1, 4)), done)
    res.signature = [gen.describe(p), [(w.kind, w.k) for w in watches]]
    res.sample = {"probes": [(w.kind, w.b.name, w.k) for w in watches], "steps": p.steps}


def check(res, w, ref, a, e, dt, p):
    V, I = ref[w.b.name]
    K = I.shape[2]
    val, t = np.array(w.probe.val), np.array(w.probe.t)
    require(res, "samples", len(t) == e - a and val.shape == (e - a, V.shape[1]),
            f"{w.kind} probe of {w.b.name} has {val.shape} values and {t.shape} times for {e - a} steps")
    stamp = (np.arange(a, e) + 1 + (0.5 if w.kind == "current" else 0.0))*dt
    expect(res, "stamps", np.max(np.abs(t - stamp))/dt, 1e-6, f"times of a {w.kind} probe of {w.b.name}")
    want = V[a:e, :, w.k] if w.kind == "voltage" else I[a:e, :, min(w.k, K-1)]
    scale = max(np.max(np.abs((V if w.kind == "voltage" else I))) for V, I in ref.values())
    if not scale > 0:
        raise Inconclusive("nothing was excited")
    err = np.max(np.abs(val - want))
    expect(res, "record", err/scale, 1e-7, f"{w.kind} probe of {w.b.name} at {w.x} (node {w.k} of {K})")
    res.count("probes checked")
    res.count("samples checked", val.size)


def unobtrusive(rng, res):
    """With no probe, few or many, the line does the same."""
    p = make("unobtrusive", rng)
    bare, full, some = Sim(p, probes=False), Sim(p), Sim(p, probes=False)
    for _ in range(3):
        b = p.bundles[int(rng.integers(len(p.bundles)))]
        Watch(rng, b, some.bundles[b.name], 0)
    m = int(rng.integers(3, p.steps + 1))
    for s in (bare, full, some):
        if p.standalone:
            s.top.dt = p.dt
            s.top.run_until((m + .5)*p.dt)
        else:
            s.top.run_until((m + .5)*p.dt, p.dt)
    for b in p.bundles:
        for s in (full, some):
            same = np.array_equal(s.bundles[b.name].v, bare.bundles[b.name].v) and np.array_equal(s.bundles[b.name].i, bare.bundles[b.name].i)
            require(res, "unobtrusive", same, f"state of {b.name} after {m} steps depends on the probes attached")
    # probing twice at one place gives the same record, and no probe sees another's
    q = Sim(p, probes=False)
    b = p.bundles[0]
    u = b.nodes()
    k = int(rng.integers(len(u)))
    trio = [q.bundles[b.name].add_probe(u[k], "voltage"), q.bundles[b.name].add_probe(u[(k+2) % len(u)], "current"),
            q.bundles[b.name].add_probe(u[k], "voltage")]
    if p.standalone:
        q.top.dt = p.dt
        q.top.run_until((m + .5)*p.dt)
    else:
        q.top.run_until((m + .5)*p.dt, p.dt)
    require(res, "independent", np.array_equal(trio[0].val, trio[2].val) and trio[0].val is not trio[2].val and
            np.array_equal(trio[0].val[-1], q.bundles[b.name].v[:, k]), "two probes at one node")
    res.signature = [gen.describe(p), m]


def default_line(rng, res):
    """A line laid along z by default, probes and sources given by their height."""
    import src.mtl as mtl
    n = int(rng.integers(1, 4))
    L, C = gen.lc(rng, n)
    K = int(rng.integers(6, 30))
    length = float(10**rng.uniform(-1, 2))
    z = np.sqrt(L[0, 0]/C[0, 0])
    from lib.spec import BundleSpec, LineSpec, Problem
    b = BundleSpec("b0", np.array([[0, 0, 0], [0, 0, length]], float), [K], [[]])
    ln = LineSpec("x", L, C, np.zeros((n, n)), np.zeros((n, n)))
    b.levels[0].append(ln)
    f = gen.waveform(rng, 3*length/gen.vmin(ln))
    ln.zs, ln.zl = np.array([z]*n), np.array([2*z]*n)
    c, side = int(rng.integers(n)), str(rng.choice(["S", "L"]))
    ln.sources = {(c, side): f}
    obj = mtl.MTL(l=L, c=C, length=length, ndiv=K if rng.random() < .5 else [K], Zs=ln.zs, Zl=ln.zl) if n > 1 else \
        mtl.MTL(l=float(L[0, 0]), c=float(C[0, 0]), length=length, ndiv=K if rng.random() < .5 else [K], Zs=z, Zl=2*z)
    obj.add_voltage_source(position=0.0 if side == "S" else length, conductor=c, magnitude=f)
    probes = []
    for _ in range(5):
        h = float(rng.uniform(0, length))
        k = h/length*K
        if abs(k - np.floor(k) - .5) < .02:
            continue
        kind = str(rng.choice(["voltage", "current"]))
        w = Watch.__new__(Watch)
        w.b, w.kind, w.k, w.x, w.probe = b, kind, int(np.round(k)), h, obj.add_probe(h if rng.random() < .5 else np.array([0.0, 0.0, h]), kind)
        probes.append(w)
    if not probes:
        raise Inconclusive("no probe placed")
    p = Problem([b], standalone=True)
    p.dt = obj.dt
    p.steps = int(rng.integers(3*K//2, 4*K))
    obj.run_until((p.steps + .3)*obj.dt)
    ref, _ = refsim.run(p)
    for w in probes:
        check(res, w, ref, 0, p.steps, p.dt, p)
    res.signature = [n, K, p.steps, [(w.kind, w.k) for w in probes]]
