"""C02: exact travelling-wave solution on uniform lossless lines, causality on everything, and
propagation theory on uneven and multi-velocity lines."""
import numpy as np

from lib import fd, gen, refsim
from lib.build import Sim
from lib.compare import chunks_of
from lib.core import Inconclusive, expect, require
from lib.spec import BundleSpec, LineSpec, Problem

PROPERTY = "C02"
TECHNIQUE = 'runtime monitor: bounce-diagram oracle at every node and step, exact-zero causality monitor over the whole network graph, Laplace-domain oracle'
LEVEL_NOTE = 'Exactness is observed on uniform lossless lines at the default step, causality on all kinds of problems; exploration over seeded random configurations.'
RULE = ("a case is one simulated line or network; non-trivial when a signal reached the far end (lattice, theory) or "
        "when points not yet reachable were observed (front); distinct by shape")
ASSUMPTIONS = ["a source sample acts one step later (half a cell of delay is within the scheme)",
               "lattice tolerance 1e-7 of the largest voltage; front tolerance: exact zero"]
MUST_OBSERVE = {"oracle:lattice": 20, "oracle:front": 20, "oracle:theory": 5, "unreachable values checked": 1000}


def jobs(tier, rng):
    return gen.jobs_from({"lattice": (40, 400), "initial": (16, 150), "front": (40, 400), "theory": (10, 80),
                          "arrival": (10, 100)}, tier, rng)


def causal(f):
    def g(t):
        return f(t) if t > 0 else 0.0
    g.label = getattr(f, "label", "f")
    return g


def uniform_line(rng, cells=(6, 40)):
    n = int(rng.integers(1, 5))
    pts, ndiv = gen.geometry(rng, cells, uniform=True)
    b = BundleSpec("b0", pts, ndiv, [[]])
    L, C = gen.lc(rng, n, homogeneous=True)
    v = gen.vmin(LineSpec("x", L, C, L, C))
    C = np.linalg.inv(L)/v**2
    C = (C + C.T)/2
    ln = LineSpec("line0", L, C, np.zeros((n, n)), np.zeros((n, n)))
    z = np.sqrt(L[0, 0]/C[0, 0])
    ln.zs = np.array([gen.resistor(rng, z) for _ in range(n)])
    ln.zl = np.array([gen.resistor(rng, z) for _ in range(n)])
    if rng.random() < .2:
        ln.zs[rng.integers(n)] = 0
    if rng.random() < .2:
        ln.zl[rng.integers(n)] = 0
    if rng.random() < .2:
        ln.zl[:] = 1e7*z
    b.levels[0].append(ln)
    return b, ln


def lattice(b, ln, steps, dt, f0=None, g0=None):
    """Bounce diagram: forward and backward waves at every node, advanced one cell per step."""
    n, K = ln.n, sum(b.ndiv)
    Yc = np.linalg.inv(np.linalg.inv(ln.c)/gen.vmin(ln))        # characteristic admittance = C v
    F = np.zeros((K+1, n)) if f0 is None else f0.copy()
    G = np.zeros((K+1, n)) if g0 is None else g0.copy()
    Zs, Zl, E = np.diag(ln.zs), np.diag(ln.zl), np.eye(n)
    A, B = Zs @ Yc, Zl @ Yc

    def vs(side, t):
        return np.array([ln.sources[(c, side)](t) if (c, side) in ln.sources else 0.0 for c in range(n)])
    V, I = np.zeros((steps, n, K+1)), np.zeros((steps, n, K))
    for k in range(steps):
        F[1:], G[:-1] = F[:-1].copy(), G[1:].copy()
        t = k*dt
        # Zs Yc (F - G) + F + G = Vs        at the near end, F unknown
        F[0] = np.linalg.solve(A + E, vs("S", t) + (A - E) @ G[0])
        G[-1] = np.linalg.solve(B + E, vs("L", t) + (B - E) @ F[-1])
        V[k] = (F + G).T
        I[k] = ((F[:-1] - G[1:]) @ Yc.T).T
    return V, I


def run_lattice(job, rng, res):
    b, ln = uniform_line(rng)
    p = Problem([b], standalone=True)
    steps = int(rng.integers(2, 7))*sum(b.ndiv)
    steps = min(steps, 200)
    f0 = g0 = None
    T = steps*b.length/sum(b.ndiv)/gen.vmin(ln)
    if job["kind"] == "lattice":
        for c in range(ln.n):
            for s in "SL":
                if rng.random() < .4:
                    ln.sources[(c, s)] = causal(gen.waveform(rng, T))
        if not ln.sources:
            ln.sources[(0, "S")] = causal(gen.waveform(rng, T))
    else:
        K = sum(b.ndiv)
        f0, g0 = rng.normal(size=(K+1, ln.n)), rng.normal(size=(K+1, ln.n))
        f0[[0, -1]] = g0[[0, -1]] = 0
    p.steps = steps
    sim = Sim(p)
    p.dt = sim.top.dt                                            # the default time step
    expect(res, "default-step", abs(p.dt*gen.vmin(ln)*sum(b.ndiv)/b.length - 1), 1e-9, "Courant number of the default step")
    V, I = lattice(b, ln, steps, p.dt, f0, g0)
    if f0 is not None:
        Yc = ln.c*gen.vmin(ln)
        sim.top.v[:, :] = (f0 + g0).T
        sim.top.i[:, :] = ((f0[:-1] - g0[1:]) @ Yc.T).T
    gv, gi = sim.run(chunks_of(rng, steps))[b.name]
    sv, si = np.max(np.abs(V)), np.max(np.abs(I))
    if not sv > 0:
        raise Inconclusive("nothing was excited")
    require(res, "lattice", gv.shape == V.shape and gi.shape == I.shape, f"shapes {gv.shape} {V.shape}")
    for what, g, r, s in (("voltage", gv, V, sv), ("current", gi, I, si)):
        e = np.abs(g - r)
        w = np.unravel_index(np.argmax(np.where(np.isfinite(e), e, np.inf)), e.shape)
        expect(res, "lattice", e[w]/s, 1e-7, f"{what} at step, conductor, place {w}: got {g[w]:.9g}, bounce diagram {r[w]:.9g}")
    res.count("lattice values checked", V.size + I.size)
    res.signature = gen.describe(p)
    res.sample = {"problem": res.signature, "max_voltage": sv}


def distances(p, source):
    """Cells between the excited node and every node (per bundle, conductor), over the whole network."""
    import heapq
    dist = {}
    ends = {}
    for b in p.bundles:
        group = {}
        for ln in b.lines:
            for c in range(ln.n):
                group[b.offset(ln) + c] = "all" if b.transfers else ln.name
        for a in range(b.n):
            ends[(b.name, a)] = group[a]
    join = {}
    parent = {}

    def find(x):
        while parent.setdefault(x, x) != x:
            x = parent[x]
        return x
    for net in p.nets:
        where = {nid: (bn, p.bundle(bn).offset(ln)+c, 0 if s == "S" else sum(p.bundle(bn).ndiv))
                 for nid, (bn, ln, c, s) in net.nodes.items()}
        for e in net.elements:
            if e[0] in ("RR", "SS"):
                parent[find(where[e[1]])] = find(where[e[2]])
    links = {}
    for x in list(parent):
        links.setdefault(find(x), []).append(x)
    heap = [(0, source)]
    best = {source: 0}
    while heap:
        d, (bn, c, k) = heapq.heappop(heap)
        if d > best[(bn, c, k)]:
            continue
        b = p.bundle(bn)
        K = sum(b.ndiv)
        near = []
        for a in range(b.n):
            if ends[(bn, a)] == ends[(bn, c)]:
                if a != c:
                    near.append(((bn, a, k), 0))
                for m in (k-1, k+1):
                    if 0 <= m <= K:
                        near.append(((bn, a, m), 1))
        if (bn, c, k) in parent:
            near += [(x, 0) for x in links[find((bn, c, k))]]
        for x, w in near:
            if d + w < best.get(x, 10**9):
                best[x] = d + w
                heapq.heappush(heap, (d + w, x))
    return best


def run_front(job, rng, res):
    style = rng.integers(4)
    if style == 0:
        p = gen.standalone(rng, connectors=int(rng.integers(0, 3)), sources=False, max_steps=60)
    elif style == 1:
        p = gen.single_bundle(rng, depth=int(rng.integers(1, 4)), transfers=int(rng.integers(0, 2)), connectors=1,
                              sources=False, max_steps=60, max_n=2)
    else:
        p = gen.junction_problem(rng, sources=False, max_steps=80, depth=int(rng.integers(1, 3)), max_n=2)
    p.steps = min(p.steps, max(sum(b.ndiv) for b in p.bundles)*len(p.bundles) + 4)
    m = int(rng.integers(0, 4))
    t0 = (m - 0.5)*p.dt
    A = float(10**rng.uniform(-1, 2))

    def f(t):
        return A*(t > t0)
    if p.standalone:
        b = p.bundles[0]
        c, s = int(rng.integers(b.n)), str(rng.choice(["S", "L"]))
        b.lines[0].sources[(c, s)] = f
        start = (b.name, c, 0 if s == "S" else sum(b.ndiv))
    else:
        net = p.nets[int(rng.integers(len(p.nets)))]
        nid = list(net.nodes)[int(rng.integers(len(net.nodes)))]
        net.elements = [e for e in net.elements if not (e[0] == "short" and e[1] == nid)]
        net.elements.append(("R", nid, 50.0, f))
        bn, ln, c, s = net.nodes[nid]
        b = p.bundle(bn)
        start = (bn, b.offset(ln) + c, 0 if s == "S" else sum(b.ndiv))
    got = Sim(p).run(chunks_of(rng, p.steps))
    best = distances(p, start)
    checked = reached = 0
    for b in p.bundles:
        V, I = got[b.name]
        for c in range(b.n):
            for k in range(V.shape[2]):
                d = best.get((b.name, c, k), 10**9)
                until = min(p.steps, m + d)
                bad = np.nonzero(V[:until, c, k])[0]
                require(res, "front", len(bad) == 0, f"voltage of {b.name}[{c}] node {k} at step {bad[:1]} is "
                        f"{V[bad[0], c, k] if len(bad) else 0} before anything could arrive (distance {d}, source from step {m})")
                checked += until
                if k < I.shape[2]:
                    until = min(p.steps, m + min(d, best.get((b.name, c, k+1), 10**9)))
                    bad = np.nonzero(I[:until, c, k])[0]
                    require(res, "front", len(bad) == 0, f"current of {b.name}[{c}] segment {k} at step {bad[:1]} too early")
                    checked += until
                if d < p.steps - m:
                    reached += bool(np.any(V[m+d:, c, k]))
    res.count("unreachable values checked", checked)
    res.count("points reached", reached)
    if not reached or not checked:
        raise Inconclusive("no signal seen")
    res.signature = gen.describe(p)
    res.sample = {"source": start, "from step": m, "unreachable values": checked, "points reached": reached}


def run_theory(job, rng, res):
    p = gen.standalone(rng, n=int(rng.integers(1, 4)), lossy=False, cells=(28, 44), transits=4.0,
                       segments=int(rng.integers(1, 3)))
    got = Sim(p).run(chunks_of(rng, p.steps))
    fd.compare(res, p, got, rng, oracle="theory", tol=0.03)
    res.signature = gen.describe(p)


def run_arrival(job, rng, res):
    """A smooth pulse is delayed by length over velocity (single velocity, uneven polyline, matched)."""
    pts, ndiv = gen.geometry(rng, (40, 60), segments=int(rng.integers(1, 4)))
    b = BundleSpec("b0", pts, ndiv, [[]])
    L, C = gen.lc(rng, 1)
    ln = LineSpec("line0", L, C, np.zeros((1, 1)), np.zeros((1, 1)))
    z, v = np.sqrt(L[0, 0]/C[0, 0]), gen.vmin(ln)
    ln.zs = ln.zl = np.array([z])
    b.levels[0].append(ln)
    side = str(rng.choice(["S", "L"]))
    s = 6*np.max(b.seglen())/v
    ln.sources[(0, side)] = gen.gaussian(1.0, 5*s, s)
    p = Problem([b], standalone=True)
    sim = Sim(p)
    p.dt = sim.top.dt
    p.steps = int((b.length/v + 11*s)/p.dt)
    V, I = sim.run(None)[b.name]
    t = (np.arange(p.steps) + 1)*p.dt

    def centre(x):
        return np.dot(t, x**2)/np.dot(x, x)
    u = b.nodes()
    arc = np.concatenate([[0], np.cumsum(b.seglen())])
    for k in range(0, len(u), 5):
        d = arc[k] if side == "S" else b.length - arc[k]
        delay = centre(V[:, 0, k]) - 5*s
        expect(res, "arrival", abs(delay - d/v - p.dt)/s, 0.25, f"delay at node {k}: {delay:.4g} for {d/v:.4g}")
        expect(res, "arrival-size", abs(np.max(V[:, 0, k]) - 0.5), 0.06, f"pulse height at node {k}")
    res.signature = gen.describe(p)


def run_job(job, res):
    rng = gen.rng_of(job)
    {"lattice": run_lattice, "initial": run_lattice, "front": run_front, "theory": run_theory,
     "arrival": run_arrival}[job["kind"]](job, rng, res)
