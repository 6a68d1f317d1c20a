"""C05: discrete energy of the recorded histories; boundedness of long runs."""
import numpy as np

from lib import gen, refsim
from lib.build import Sim
from lib.compare import chunks_of
from lib.core import Inconclusive, expect, require

PROPERTY = "C05"
TECHNIQUE = "runtime monitor: discrete energy functional evaluated on every step of recorded histories; boundedness monitor over long runs"
LEVEL_NOTE = ("Energy is computed from every recorded voltage and current, so a gain at any step anywhere is seen; "
              "exploration over seeded random passive structures and run lengths up to some 10^4 steps.")
RULE = ("a case is one passive structure excited by a source that ends (or by an initial state) and then left alone; "
        "non-trivial when it stored energy; distinct by shape")
ASSUMPTIONS = ["energy of the scheme: half C v^2 per node (half cells at the ends), half L i^2 per segment, and the "
               "leapfrog cross term dt/2 i dv", "tolerance 1e-8 of the stored energy"]
MUST_OBSERVE = {"oracle:never grows": 40, "oracle:conserved": 10, "oracle:bounded": 6, "energy steps checked": 2000}


def jobs(tier, rng):
    return gen.jobs_from({"standalone": (24, 200), "bundle": (16, 150), "junction": (20, 200), "lossless": (16, 150),
                          "levels": (8, 80), "connectors": (10, 80), "long": (14, 90), "long-lines": (4, 30), "resonant": (14, 90)}, tier, rng)


def quiet(p, rng, fraction=0.35):
    """Replace every source by a pulse that ends."""
    T = p.steps*p.dt
    end = fraction*T
    from lib.transform import map_sources

    def f(k, old):
        A, s = float(rng.choice([-1, 1])*10**rng.uniform(-1, 1)), end*rng.uniform(.05, .12)
        return lambda t: A*np.exp(-(t - end/2)**2/(2*s**2))*(abs(t - end/2) < end/2)
    return map_sources(p, f), int(np.ceil(end/p.dt)) + 4


class Energy:
    def __init__(self, p):
        self.p = p
        self.rb = {b.name: refsim.RefBundle(b, p.dt) for b in p.bundles}

    def __call__(self, got):
        tot = np.zeros(self.p.steps)
        for b in self.p.bundles:
            rb = self.rb[b.name]
            V, I = got[b.name]
            tot += self.one(rb, V, I)
        return tot

    def one(self, rb, V, I):
        E = np.zeros((rb.K, rb.n, rb.n))
        for (k, i, j), (d, e, poles, residues, _) in rb.terms.items():
            E[k, i, j] = e
        el = 0.5*np.einsum("tik,k,kij,tjk->t", V, rb.cell, rb.C, V, optimize=True)
        ma = 0.5*np.einsum("tik,k,kij,tjk->t", I, rb.du, rb.L + E, I, optimize=True)
        cr = 0.5*self.p.dt*np.einsum("tik,tik->t", I, np.diff(V, axis=2))
        return el + ma + cr


def lossless(p, rng):
    for b in p.bundles:
        b.rloc, b.gloc = [], []
        for ln in b.lines:
            ln.r[:], ln.g[:] = 0, 0
            ln.connectors = [(c, x, m) for c, x, m in ln.connectors if False]
            if ln.zs is not None:
                ln.zs = np.array([float(rng.choice([0.0, 0.0])) for _ in range(ln.n)])
                ln.zl = np.array([0.0]*ln.n)


def make(kind, rng):
    if kind == "standalone":
        return gen.standalone(rng, transits=6, rloc=int(rng.integers(0, 2)), gloc=int(rng.integers(0, 2)), courant=pick(rng))
    if kind == "bundle":
        return gen.single_bundle(rng, rich=False, transits=5, rloc=1, gloc=1, courant=pick(rng))
    if kind == "levels":
        return gen.single_bundle(rng, depth=2, rich=False, transits=5, courant=pick(rng))
    if kind == "junction":
        return gen.junction_problem(rng, rich=False, transits=5, max_n=2, courant=pick(rng))
    if kind == "connectors":
        p = gen.standalone(rng, transits=6, connectors=3, courant=pick(rng))
        for ln in p.bundles[0].lines:
            for _, _, m in ln.connectors:
                m.poles, m.residues = [], []
        return p
    if kind == "lossless":
        return gen.standalone(rng, transits=12, lossy=False, sources=False, cells=(6, 20), courant=pick(rng))
    if kind == "long":
        if rng.random() < .4:
            return gen.standalone(rng, n=int(rng.integers(1, 3)), cells=(6, 10), transits=300, connectors=3, max_steps=2500,
                                  courant=pick(rng))
        return gen.junction_problem(rng, cells=(4, 8), transits=300, max_n=2, max_steps=2500, courant=pick(rng)) \
            if rng.random() < .5 else \
            gen.single_bundle(rng, cells=(6, 10), transits=300, max_n=2, max_steps=2500, connectors=1, courant=pick(rng))
    if kind == "resonant":
        p = gen.single_bundle(rng, cells=(6, 10), transits=300, max_n=2, max_steps=2500, rich=False, courant=pick(rng))
        return ring(rng, p)
    if kind == "long-lines":
        return gen.standalone(rng, n=int(rng.integers(1, 4)), cells=(6, 10), transits=2000, max_steps=9000, courant=1.0)


def ring(rng, p):
    """Coils and capacitors in parallel that ring for long behind small losses."""
    for net in p.nets:
        for nid, (_, ln, _, _) in net.nodes.items():
            if rng.random() < .6 and not any(e[1] == nid and e[-1] is not None for e in net.elements):
                z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
                w, own = rng.uniform(.05, .5)/p.dt, z*10**rng.uniform(-.7, .7)
                net.elements = [e for e in net.elements if e[1] != nid or e[0] == "RR"]
                net.elements.append(("LCpRs", nid, float(z*10**rng.uniform(0, 2)), float(own/w), float(1/(own*w)), None))
    gen.ensure_source(rng, p, p.steps*p.dt)
    return p


def pick(rng):
    return 1.0 if rng.random() < .5 else float(rng.uniform(.3, 1.0))


def run_job(job, res):
    rng = gen.rng_of(job)
    kind = job["kind"]
    p = make(kind, rng)
    if kind == "lossless":
        return run_lossless(rng, res, p)
    p, start = quiet(p, rng, 0.35 if not kind.startswith("long") else 0.05)
    sim = Sim(p)
    if kind == "long-lines":
        sim.vprobes, sim.iprobes = sim.vprobes, sim.iprobes
    got = sim.run(chunks_of(rng, p.steps))
    e = Energy(p)(got)
    finite = all(np.all(np.isfinite(x)) for h in got.values() for x in h)
    require(res, "finite", finite, "values that are not numbers")
    top = np.max(e)
    if not top > 0:
        raise Inconclusive("nothing was excited")
    require(res, "positive", np.min(e) > -1e-9*top, f"negative stored energy {np.min(e):.3g} of {top:.3g}")
    after = e[start:]
    # a resting structure may have lost nearly everything: judge against what it had when left alone
    scale = max(after[0], 1e-9*top)
    if kind in ("standalone", "bundle", "junction", "levels", "connectors", "long-lines"):
        gain = np.max(np.diff(after))/scale
        expect(res, "never grows", max(gain, 0), 1e-8, f"step {start + int(np.argmax(np.diff(after)))} of {p.steps}, energy {top:.3g}")
        res.count("energy steps checked", len(after))
        lossy = any(np.any(ln.r) or np.any(ln.g) or ln.zs is not None and (np.any(ln.zs) or np.any(ln.zl)) for b in p.bundles for ln in b.lines) or \
            any(x[0] == "R" for n in p.nets for x in n.elements)
        if lossy and after[0] > 1e-6*top:
            require(res, "decays", after[-1] < after[0], f"{after[-1]} of {after[0]} left")
    else:
        half = len(e)//2
        early = np.max(e[:half])
        late = np.max(e[-len(e)//4:])
        expect(res, "bounded", late/early, 1.5, f"largest stored energy {late:.3g} in the last quarter, {early:.3g} in the first half")
        res.count("energy steps checked", len(e))
    res.signature = gen.describe(p)
    res.sample = {"energy": [float(x) for x in e[::max(1, len(e)//8)]]}


def run_lossless(rng, res, p):
    """Random initial state between short circuits (exact) and practically open ends (to 1e-6)."""
    b = p.bundles[0]
    ln = b.lines[0]
    opened = rng.random() < .5
    ln.zs = np.where(rng.random(ln.n) < .5, 0.0, 1e13 if opened else 0.0)
    ln.zl = np.where(rng.random(ln.n) < .5, 0.0, 1e13 if opened else 0.0)
    sim = Sim(p)
    obj = sim.top
    obj.v[:, 1:-1] = rng.normal(size=obj.v[:, 1:-1].shape)
    z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
    obj.i[:, :] = rng.normal(size=obj.i.shape)/z
    got = sim.run(chunks_of(rng, p.steps))
    e = Energy(p)(got)
    require(res, "positive", np.min(e) > 0, f"stored energy {np.min(e)}")
    expect(res, "conserved", np.max(np.abs(e/e[0] - 1)), 1e-6, "stored energy of a structure that dissipates nothing")
    res.count("energy steps checked", len(e))
    res.signature = gen.describe(p)
    res.sample = {"energy": [float(x) for x in e[::max(1, len(e)//8)]]}
