"""C03: the terminal relation evaluated on recorded end voltages and currents, the reference model,
and equivalence of the ways to give impedances."""
import numpy as np

from lib import fd, gen, refsim, staged
from lib.build import Sim
from lib.compare import chunks_of, scales, simulate_and_compare
from lib.core import Inconclusive, expect

PROPERTY = "C03"
TECHNIQUE = 'runtime monitor: terminal law evaluated on recorded end voltages and currents, reference simulator, DC and Laplace-domain oracles'
LEVEL_NOTE = 'Observes each end and conductor at each step of seeded random lines, in every accepted form of impedances.'
RULE = ("a case is one line on its own with random end impedances (in one of the accepted forms), sources on random "
        "ends and conductors; non-trivial when excited; distinct by shape and form")
ASSUMPTIONS = ["tolerance 1e-7 of the largest value"]
MUST_OBSERVE = {"oracle:terminal": 40, "oracle:reference": 40, "oracle:dc": 4, "oracle:theory": 3, "oracle:later": 8}


def jobs(tier, rng):
    return gen.jobs_from({"forms": (50, 400), "extremes": (20, 200), "lossy-ends": (20, 150), "dc": (8, 60),
                          "theory": (8, 60), "moved-source": (10, 80), "later": (14, 120)}, tier, rng)


def terminal_law(res, p, got):
    """(v + v')/2 = Vs -+ Z (i + charging and leakage of the end cell), both ends, every step."""
    b = p.bundles[0]
    ln = b.lines[0]
    rb = refsim.RefBundle(b, p.dt)
    V, I = got[b.name]
    dt = p.dt
    v1 = V
    v0 = np.concatenate([np.zeros_like(V[:1]), V[:-1]])
    i0 = np.concatenate([np.zeros_like(I[:1]), I[:-1]])         # current between the two voltages
    t = np.arange(p.steps)*dt
    for side, k, sgn, z in (("S", 0, 1.0, ln.zs), ("L", -1, -1.0, ln.zl)):
        half = rb.du[k]/2
        cap = np.einsum("ij,tj->ti", half*rb.C[k], (v1 - v0)[:, :, k]/dt) \
            + np.einsum("ij,tj->ti", half*rb.G[k], (v1 + v0)[:, :, k]/2)
        vs = np.zeros((p.steps, ln.n))
        for c in range(ln.n):
            f = ln.sources.get((c, side))
            if f is not None:
                vs[:, c] = [(f(x) + f(x - dt))/2 for x in t]
        drop = (sgn*i0[:, :, k] + cap)*z
        left = (v1 + v0)[:, :, k]/2
        scale = max(np.max(np.abs(vs)), np.max(np.abs(V)), 1e-300)
        err = np.abs(left - vs + drop)
        err = err/(scale + np.max(np.abs(drop), axis=0))
        expect(res, "terminal", np.max(err), 1e-7, f"end {side}: v = Vs - Z i, impedances {z}")
        res.count("terminal steps checked", p.steps*ln.n)


def run_job(job, res):
    rng = gen.rng_of(job)
    kind = job["kind"]
    if kind == "theory":
        p = gen.standalone(rng, n=int(rng.integers(1, 4)), cells=(28, 40), transits=4.0, segments=1)
    elif kind == "lossy-ends":
        p = gen.standalone(rng, gloc=2, rloc=1, per_cell=rng.random() < .5)
    else:
        p = gen.standalone(rng, n=int(rng.integers(1, 6)), max_steps=250)
    b = p.bundles[0]
    ln = b.lines[0]
    z0 = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
    if kind == "extremes":
        for z in (ln.zs, ln.zl):
            for c in range(ln.n):
                z[c] = float(rng.choice([0.0, 1e-6, 1e-3, z0, 1e3*z0, 1e9]))
    form = str(rng.choice(["1d", "column", "row", "scalar"])) if kind != "dc" else "1d"
    if form == "scalar":
        ln.zs[:], ln.zl[:] = ln.zs[0], ln.zl[0]
    ln.form = form
    if kind == "later":                        # sources given or replaced between runs
        staged.run(rng, res, p, ("sources", "step"), oracle="later")
        res.signature = gen.describe(p)
        return
    if kind == "dc":
        return run_dc(job, rng, res, p)
    if kind == "moved-source":
        return run_moved(rng, res, p)
    sim, got, ref = simulate_and_compare(res, p, rng, tol=1e-7)
    terminal_law(res, p, got)
    if kind == "theory":
        fd.compare(res, p, got, rng, oracle="theory", tol=0.03)
    res.signature = [form, gen.describe(p)]
    res.sample = {"form": form, "zs": ln.zs, "zl": ln.zl, "max_voltage": scales(ref)[0]}


def run_moved(rng, res, p):
    """A source given anywhere within half a cell of an end is a source at that end; replaced ones do not add."""
    b = p.bundles[0]
    ln = b.lines[0]
    sim = Sim(p)
    obj = sim.bundles[b.name]
    f = gen.waveform(rng, p.steps*p.dt)
    c = int(rng.integers(ln.n))
    side = str(rng.choice(["S", "L"]))
    u = b.nodes()
    where = u[0] + 0.4*rng.random()*(u[1] - u[0]) if side == "S" else u[-1] + 0.4*rng.random()*(u[-2] - u[-1])
    obj.add_voltage_source(where, c, f)
    ln.sources[(c, side)] = f
    from lib.compare import against_reference
    got = sim.run(chunks_of(rng, p.steps))
    ref, _ = refsim.run(p)
    against_reference(res, got, ref, 1e-7)
    terminal_law(res, p, got)
    res.signature = gen.describe(p)


def run_dc(job, rng, res, p):
    """Constant sources behind moderate resistances settle to the resistive circuit."""
    b = p.bundles[0]
    ln = b.lines[0]
    z0 = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
    n = ln.n
    ln.zs, ln.zl = z0*rng.uniform(.5, 2, n), z0*rng.uniform(.5, 2, n)
    T = b.length/gen.vmin(ln)
    A = {}
    for key in list(ln.sources):
        A[key] = float(rng.uniform(-5, 5))
        ln.sources[key] = gen.ramp(A[key], 2*T)
    p.dt *= 0.9
    p.steps = int(min(60*T/p.dt, 4000))
    got = Sim(p).run()
    rb = refsim.RefBundle(b, p.dt)
    V, I = got[b.name]
    # chain of resistive cells
    K = rb.K
    N = n*(K+1)
    M, rhs = np.zeros((N, N)), np.zeros(N)
    idx = lambda k: slice(k*n, (k+1)*n)
    steady_i = I[-2:].mean(axis=0)
    v = V[-2:].mean(axis=0)
    for side, k, z, sg in (("S", 0, ln.zs, 1.0), ("L", K, ln.zl, -1.0)):
        vs = np.array([A.get((c, side), 0.0) for c in range(n)])
        cur = (vs - v[:, k])/z                                   # into the line
        leak = rb.cell[k]*rb.G[k] @ v[:, k]
        line = steady_i[:, 0] if k == 0 else -steady_i[:, -1]
        scale = np.max(np.abs(np.concatenate([vs/z, cur]))) + 1e-300
        expect(res, "dc", np.max(np.abs(cur - leak - line))/scale, 2e-2, f"steady current into end {side}")
    drop = np.einsum("kij,jk->ik", rb.R*rb.du[:, None, None], steady_i)
    expect(res, "dc-drop", np.max(np.abs(np.diff(v, axis=1) + drop))/np.max(np.abs(v)), 2e-2, "steady drop along the line")
    res.signature = gen.describe(p)
