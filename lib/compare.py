"""Shared oracles over recorded histories."""
import numpy as np

from lib import refsim
from lib.core import Inconclusive, expect


def chunks_of(rng, steps):
    """A random way of reaching `steps` in one to three runs."""
    k = int(rng.integers(1, 4))
    if k == 1 or steps < 6:
        return [steps]
    cuts = sorted(set(int(x) for x in rng.integers(1, steps, size=k-1)))
    edges = [0] + cuts + [steps]
    return [b - a for a, b in zip(edges[:-1], edges[1:]) if b > a]


def scales(ref):
    v = max(np.max(np.abs(h[0])) for h in ref.values())
    i = max(np.max(np.abs(h[1])) for h in ref.values())
    # a mode may have (nearly) no voltage or no current; lines are between 20 and 600 ohm or so
    return max(v, 2e-3*i), max(i, 2e-7*v)


def against_reference(res, got, ref, tol=1e-6, oracle="reference", need_signal=True):
    """Every voltage and current of every step equals the reference model's."""
    sv, si = scales(ref)
    if not (np.isfinite(sv) and np.isfinite(si)):
        raise Inconclusive("the reference diverged")
    if need_signal and (sv == 0 or si == 0):
        raise Inconclusive("nothing was excited")
    if sv == 0 and si == 0:
        sv = si = 1.0
    for name, (rv, ri) in ref.items():
        gv, gi = got[name]
        for what, g, r, s in (("voltage", gv, rv, sv), ("current", gi, ri, si)):
            if g.shape != r.shape:
                expect(res, oracle, np.inf, tol, f"{what} of {name}: shape {g.shape}, expected {r.shape}")
            err = np.abs(g - r)
            err = np.where(np.isfinite(err), err, np.inf)
            worst = np.unravel_index(np.argmax(err), err.shape)
            expect(res, oracle, err[worst]/s, tol,
                   f"{what} of bundle {name}, conductor {worst[1]}, node/segment {worst[2]}, step {worst[0]}: "
                   f"got {g[worst]:.9g}, reference {r[worst]:.9g} (scale {s:.3g})")
            res.count("values compared", g.size)
            res.count("nonzero values compared", int(np.count_nonzero(np.abs(r) > 1e-9*s)))


def simulate_and_compare(res, problem, rng, tol=1e-6, chunks=True, oracle="reference"):
    from lib.build import Sim
    ref, times = refsim.run(problem)
    sim = Sim(problem)
    got = sim.run(chunks_of(rng, problem.steps) if chunks else None)
    against_reference(res, got, ref, tol, oracle)
    return sim, got, ref
