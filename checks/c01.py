"""C01: recorded histories against the interior update equations (residual) and the reference model."""
import numpy as np

from lib import fd, gen, refsim, staged
from lib.build import Sim
from lib.compare import against_reference, chunks_of, scales, simulate_and_compare
from lib.core import Inconclusive, expect

PROPERTY = "C01"
TECHNIQUE = 'runtime monitor on recorded histories: residual of the update equations, plus online comparison with an independent reference simulator and a Laplace-domain oracle'
LEVEL_NOTE = 'Observes every node, segment and step of the generated lines, bundles and networks; exploration, not proof. Trusts lib/refsim.py (written from the published scheme) and numpy.'
RULE = ("a case is one random line, bundle or network simulated and recorded at every node, segment and step; "
        "non-trivial when voltages and currents were excited; distinct by shape (conductors, divisions, elements, "
        "steps, time step)")
ASSUMPTIONS = ["probes report the state (decided by C12)", "tolerance 1e-7 of the largest value of the history"]
MUST_OBSERVE = {"oracle:residual-v": 5, "oracle:residual-i": 5, "oracle:reference": 20, "oracle:theory": 3, "oracle:stepped": 6}


def jobs(tier, rng):
    return gen.jobs_from({"line": (28, 260), "percell": (16, 150), "bundle": (20, 200), "network": (12, 120),
                          "long": (2, 12), "many": (4, 30), "fine": (4, 24), "short-line": (6, 60), "theory": (12, 60), "stepped": (12, 100)}, tier, rng)


def make(job, rng):
    k = job["kind"]
    if k == "line":
        return gen.standalone(rng)
    if k == "percell":
        if rng.random() < .5:
            return gen.standalone(rng, per_cell=True, segments=int(rng.integers(1, 5)))
        p = gen.single_bundle(rng, rich=False)
        for b in p.bundles:
            for ln in b.lines:
                ln.percell = gen.percell(rng, sum(b.ndiv))
        return p
    if k == "bundle":
        return gen.single_bundle(rng, depth=int(rng.integers(1, 4)), max_n=2, rich=False)
    if k == "network":
        return gen.junction_problem(rng, rich=False)
    if k == "long":
        return gen.standalone(rng, n=int(rng.integers(1, 3)), transits=40, max_steps=2500, cells=(8, 16))
    if k == "fine":                            # more than a hundred cells
        if rng.random() < .5:
            return gen.standalone(rng, cells=(90, 170), max_steps=450, segments=int(rng.integers(1, 7)))
        return gen.single_bundle(rng, depth=int(rng.integers(1, 4)), cells=(70, 140), max_n=3, rich=False, max_steps=260)
    if k == "many":
        return gen.standalone(rng, n=int(rng.integers(5, 9)), cells=(6, 10), max_steps=150)
    if k == "short-line":
        return short_line(rng)
    if k == "theory":
        return gen.standalone(rng, n=int(rng.integers(1, 4)), cells=(28, 40), transits=4.0,
                              segments=int(rng.integers(1, 3)))


def short_line(rng):
    """Lines of two to four cells: every node is next to an end."""
    from lib.spec import BundleSpec, Problem
    n = int(rng.integers(1, 4))
    ndiv = [[2], [3], [1, 1], [2, 1], [1, 1, 1], [4], [1, 2]][rng.integers(7)]
    pts = gen.points(rng, len(ndiv))
    b = BundleSpec("b0", pts, ndiv, [[]])
    ln = gen.line(rng, n, "line0", b.length)
    b.levels[0].append(ln)
    z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
    ln.zs = np.array([gen.resistor(rng, z) for _ in range(n)])
    ln.zl = np.array([gen.resistor(rng, z) for _ in range(n)])
    T = gen.estimate_T([b], 20)
    ln.sources[(int(rng.integers(n)), str(rng.choice(["S", "L"])))] = gen.waveform(rng, T)
    p = Problem([b], standalone=True)
    gen.finish(rng, p, 20)
    return p


def residuals(res, problem, got):
    """The update equations, evaluated on the recorded values (no simulation)."""
    dt = problem.dt
    for b in problem.bundles:
        rb = refsim.RefBundle(b, dt)
        V, I = got[b.name]
        zero_v, zero_i = np.zeros_like(V[:1]), np.zeros_like(I[:1])
        v1, i1 = V, I
        v0, i0 = np.concatenate([zero_v, V[:-1]]), np.concatenate([zero_i, I[:-1]])
        du = rb.du
        w = 0.5*(du[1:] + du[:-1])
        C, G = rb.C[1:-1], rb.G[1:-1]
        dv, av = (v1 - v0)[:, :, 1:-1]/dt, (v1 + v0)[:, :, 1:-1]/2
        lhs = np.einsum("kij,tjk->tik", C, dv) + np.einsum("kij,tjk->tik", G, av)
        di = (i0[:, :, 1:] - i0[:, :, :-1])/w
        scale = max(np.max(np.abs(lhs)), np.max(np.abs(di)))
        if not scale > 0:
            raise Inconclusive("nothing was excited")
        expect(res, "residual-v", np.max(np.abs(lhs + di))/scale, 1e-7, f"C dv/dt + G v + di/dx at a node of {b.name}")
        di, ai = (i1 - i0)/dt, (i1 + i0)/2
        lhs = np.einsum("kij,tjk->tik", rb.L, di) + np.einsum("kij,tjk->tik", rb.R, ai)
        dv = (v1[:, :, 1:] - v1[:, :, :-1])/du
        scale = max(np.max(np.abs(lhs)), np.max(np.abs(dv)))
        expect(res, "residual-i", np.max(np.abs(lhs + dv))/scale, 1e-7, f"L di/dt + R i + dv/dx at a segment of {b.name}")
        res.count("node updates checked", v1[:, :, 1:-1].size)
        res.count("segment updates checked", i1.size)


def run_job(job, res):
    rng = gen.rng_of(job)
    if job["kind"] == "stepped":               # consecutive runs with other time steps
        p = make({"kind": str(rng.choice(["line", "percell", "bundle", "network"]))}, rng)
        staged.run(rng, res, p, ("step",), oracle="stepped")
        res.signature = gen.describe(p)
        return
    p = make(job, rng)
    sim, got, ref = simulate_and_compare(res, p, rng, tol=1e-7)
    if all(not b.transfers for b in p.bundles):
        residuals(res, p, got)
    if job["kind"] == "theory":
        fd.compare(res, p, got, rng, oracle="theory", tol=0.03)
    # geometry as a user sees it
    for b in p.bundles:
        u = np.array(sim.bundles[b.name].u)
        expect(res, "nodes", np.max(np.abs(u - b.nodes()))/b.length if u.shape == b.nodes().shape else np.inf, 1e-9,
               f"node positions of {b.name}")
    res.signature = gen.describe(p)
    sv, si = scales(ref)
    res.sample = {"problem": res.signature, "max_voltage": sv, "max_current": si}
