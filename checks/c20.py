"""C20: reported velocities and time steps against their definition."""
import numpy as np

from lib import gen
from lib.build import Sim, make_line
from lib.core import expect, require
from lib.spec import BundleSpec, Problem, default_dt

PROPERTY = "C20"
TECHNIQUE = "runtime monitor: velocities and time steps returned by the real objects compared with their definition computed independently"
LEVEL_NOTE = "Compares returned values for seeded random lines, bundles and networks, and the time stamps of runs with the default step."
RULE = "a case is one random line, bundle or network; non-trivial always; distinct by shape and parameters"
ASSUMPTIONS = ["relative tolerance 1e-9", "velocities of a cell are compared as a set"]
MUST_OBSERVE = {"oracle:velocities": 60, "oracle:step": 60, "oracle:set step": 15}


def jobs(tier, rng):
    return gen.jobs_from({"line": (60, 600), "percell": (24, 240), "bundle": (40, 400), "network": (30, 300),
                          "run": (12, 100)}, tier, rng)


def velocities(L, C):
    # 1/sqrt of the eigenvalues of L C, through the symmetric form of the product
    w, q = np.linalg.eigh(C)
    h = (q*np.sqrt(w)) @ q.T
    return np.sort(1/np.sqrt(np.linalg.eigvalsh(h @ L @ h)))


def check_velocities(res, got, Ls, Cs, what):
    got = np.array(got)
    require(res, "shape", got.shape == (len(Ls), Ls[0].shape[0]), f"{what}: shape {got.shape}")
    for k in range(len(Ls)):
        want = velocities(Ls[k], Cs[k])
        expect(res, "velocities", np.max(np.abs(np.sort(np.real(got[k]))/want - 1)), 1e-7, f"{what}, cell {k}: {np.sort(got[k])} for {want}")


def run_job(job, res):
    rng = gen.rng_of(job)
    kind = job["kind"]
    if kind in ("line", "percell"):
        n = int(rng.integers(1, 7))
        pts, ndiv = gen.geometry(rng, (4, 30), segments=int(rng.integers(1, 5)))
        b = BundleSpec("b", pts, ndiv, [[]])
        ln = gen.line(rng, n, "x", b.length)
        b.levels[0].append(ln)
        obj = make_line(ln, b)
        K = sum(ndiv)
        if kind == "percell":
            f = 1 + 2*rng.random(K)
            h = 1 + 2*rng.random(K+1) if rng.random() < .5 else np.ones(K+1)
            obj.l *= f[:, None, None]
            obj.c *= h[:, None, None]
        else:
            f, h = np.ones(K), np.ones(K+1)
            dt = np.min(b.seglen())/np.max(velocities(ln.l, ln.c))
            expect(res, "step", abs(obj.dt/dt - 1), 1e-7, f"default step {obj.dt} for {dt}")
        check_velocities(res, obj.get_phase_velocities(), [ln.l*x for x in f], [ln.c*x for x in h[1:]], "line")
        vm = max(np.max(velocities(ln.l*x, ln.c*y)) for x, y in zip(f, h[1:]))
        expect(res, "step", abs(obj.get_max_timestep()/(np.min(b.seglen())/vm) - 1), 1e-7, "largest stable step")
        d, T = int(rng.integers(1, 10**5)), float(10**rng.uniform(-10, -3))
        obj.set_time_step(d, T)
        expect(res, "set step", abs(obj.dt*d/T - 1), 1e-9, "step from number of divisions")
        res.signature = [n, list(map(int, ndiv)), float(f"{vm:.4e}")]
        res.sample = {"velocities": velocities(ln.l, ln.c).tolist()}
    elif kind == "bundle":
        b = gen.bundle(rng, "b", int(rng.integers(1, 4)), max_n=4)
        if rng.random() < .5:
            for ln in b.lines:
                s = 10**rng.uniform(-.3, .3)
                ln.l *= s
        if rng.random() < .5:
            gen.vary(rng, [b], .7)
        import src.mtl as mtl
        obj = mtl.MTLD({k: [make_line(ln, b) for ln in lev] for k, lev in enumerate(b.levels)}, name="b")
        from lib.refsim import block_diag
        K = sum(b.ndiv)
        one = {"l": np.ones(K), "c": np.ones(K+1)}
        fac = [x.percell or one for x in b.lines]
        check_velocities(res, obj.get_phase_velocities(), [block_diag([x.l*q["l"][k] for x, q in zip(b.lines, fac)]) for k in range(K)],
                         [block_diag([x.c*q["c"][k+1] for x, q in zip(b.lines, fac)]) for k in range(K)], "bundle")
        dt = min(np.min(b.seglen())/np.max(velocities(x.l, x.c)) for x in b.lines)
        expect(res, "step", abs(obj.dt/dt - 1), 1e-7, f"default step of a bundle {obj.dt} for {dt}")
        res.signature = [list(map(int, b.ndiv)), [x.n for x in b.lines], float(f"{dt:.4e}")]
    else:
        p = gen.junction_problem(rng, max_steps=60, count=int(rng.integers(2, 5)), media=0)
        dts = [default_dt(Problem([b])) for b in p.bundles]
        if kind == "network":
            import src.mtln as mtln
            sim = Sim(p, probes=False)
            expect(res, "step", abs(sim.top.dt/min(dts) - 1), 1e-7, f"default step of a network {sim.top.dt} for {dts}")
            top = mtln.MTLN()
            seen = []
            for k in rng.permutation(len(dts)):
                fresh = Sim(p, probes=False)
                top.add_bundle(fresh.bundles[p.bundles[k].name])
                seen.append(dts[k])
                expect(res, "step", abs(top.dt/min(seen) - 1), 1e-7, "default step after adding a bundle")
        else:
            sim = Sim(p)
            m = int(rng.integers(1, 30))
            sim.top.run_until((m + .5)*min(dts))
            for b in p.bundles:
                t = sim.vprobes[b.name][0].t
                require(res, "step", len(t) == m, f"{len(t)} steps for {m}")
                expect(res, "step", np.max(np.abs(t - (np.arange(m)+1)*min(dts)))/min(dts), 1e-6, f"times of {b.name} in a run with the default step")
        res.signature = [gen.describe(p)]
