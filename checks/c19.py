"""C19: extracted two-port parameters against their definition, theory, and each other."""
import copy

import numpy as np

from lib import fd, gen, refsim
from lib.build import make_line
from lib.core import Inconclusive, expect, require
from lib.digest import digest, same

PROPERTY = "C19"
TECHNIQUE = "runtime monitor of returned networks against an independent simulation of the port waves, transmission-line theory and metamorphic re-extractions; state digests of the line around each extraction"
LEVEL_NOTE = "Exploration over seeded random lines, terminations, ports and frequency ranges."
RULE = "a case is one line, its terminations, two ports and a frequency range; non-trivial when the range holds frequencies; distinct by shape and ports"
ASSUMPTIONS = ["ports are the centres of the first and last segments (documented by the port probes' placement)",
               "the line has no sources of its own", "theory within 4 % of the largest parameter (or of one), cells below lambda/30"]
MUST_OBSERVE = {"oracle:definition": 18, "oracle:theory": 14, "oracle:exchanged": 10, "oracle:partner": 8,
                "oracle:unchanged": 8, "oracle:fresh": 8, "oracle:reversed": 6, "oracle:reciprocity": 8,
                "oracle:passive": 8, "frequencies compared": 350}


def jobs(tier, rng):
    return gen.jobs_from({"definition": (22, 240), "theory": (18, 180), "ports": (14, 120), "state": (10, 90),
                          "reversed": (8, 70)}, tier, rng)


def line_of(rng, n=None, **kw):
    p = gen.standalone(rng, n, sources=False, transits=1.0, **kw)
    ln = p.bundles[0].lines[0]
    z = np.sqrt(np.diag(ln.l)/np.diag(ln.c))
    ln.zs = z*10**rng.uniform(-.5, .5, size=ln.n)
    ln.zl = z*10**rng.uniform(-.5, .5, size=ln.n)
    if rng.random() < .3:
        ln.zs = np.full(ln.n, ln.zs[0])
        ln.zl = np.full(ln.n, ln.zl[0])
        ln.form = "scalar"
    else:
        ln.form = str(rng.choice(["1d", "column"]))
    return p


def ports_of(rng, n):
    every = [(s, c) for c in range(n) for s in "SL"]
    a, b = rng.permutation(len(every))[:2]
    return every[a], every[b]


def make(p):
    b = p.bundles[0]
    obj = make_line(b.lines[0], b, thevenin=True)
    for start, end, cond, ohms in b.rloc:
        obj.set_resistance_in_region(np.array(start), np.array(end), cond, ohms)
    for start, end, cond, siemens in b.gloc:
        obj.add_conductance_in_region(np.array(start), np.array(end), cond, siemens)
    obj.dt = p.dt
    return obj


def band(rng, p, cells=None):
    """A frequency range the cells resolve, and a duration."""
    b = p.bundles[0]
    ln = b.lines[0]
    cell = np.max(b.seglen())/gen.vmin(ln)
    slow = b.length/gen.vmin(ln)
    fmax = 1/cell/(cells or float(rng.uniform(20, 60)))
    fmin = float(rng.choice([0.0, rng.uniform(.01, .5)]))*fmax
    return fmin, fmax, slow


def plan(rng, p, cells=None, transits=None):
    fmin, fmax, slow = band(rng, p, cells)
    T = 9/fmax + slow*(transits or float(rng.uniform(1, 6)))
    return fmin, fmax, T


def extract(line, plan_, p1, p2):
    from src.networkExtraction import extract_2p_network
    fmin, fmax, T = plan_
    nw = extract_2p_network(line, fmin, fmax, T, p1=p1, p2=p2)
    return np.array(nw.f), np.array(nw.s)


def steps_of(p, T):
    return int(np.floor(T/p.dt))


def grid(p, plan_):
    fmin, fmax, T = plan_
    N = steps_of(p, T)
    k = np.arange(-(N//2), (N + 1)//2)
    f = k/(N*p.dt)
    return f[(f >= fmin) & (f < fmax)], N


def gauss(fmax):
    s = 1/(2*fmax)
    return lambda t: np.exp(-(t - 8*s)**2/(2*s*s))


def waves(p, plan_, drive, ports):
    """(a, b) of each port when one of them is driven, from the reference simulator."""
    f, N = grid(p, plan_)
    q = copy.deepcopy(p)
    q.steps = N
    b = q.bundles[0]
    ln = b.lines[0]
    ln.sources = {(drive[1], drive[0]): gauss(plan_[1])}
    hist, _ = refsim.run(q)
    V, I = hist[b.name]
    out = []
    E = np.exp(-2j*np.pi*np.outer(f, np.arange(N)*p.dt))
    for side, c in ports:
        k = 0 if side == "S" else -1
        z = (ln.zs if side == "S" else ln.zl)[c]
        v = E @ (V[:, c, 0] + V[:, c, 1] if side == "S" else V[:, c, -2] + V[:, c, -1])/2
        i = I[:, c, k]
        i = E @ (i + np.concatenate([i[:1], i[:-1]]))/2
        i = i if side == "S" else -i
        out.append(((v + z*i)/(2*np.sqrt(z)), (v - z*i)/(2*np.sqrt(z))))
    return f, out


def by_definition(p, plan_, p1, p2):
    f, w = waves(p, plan_, p1, (p1, p2))
    _, y = waves(p, plan_, p2, (p1, p2))
    S = np.zeros((len(f), 2, 2), complex)
    S[:, 0, 0], S[:, 1, 0] = w[0][1]/w[0][0], w[1][1]/w[0][0]
    S[:, 0, 1], S[:, 1, 1] = y[0][1]/y[1][0], y[1][1]/y[1][0]
    return f, S


def in_theory(p, fs, p1, p2):
    """The same ratios from the telegrapher equations, at the centres of the end segments."""
    S = np.zeros((len(fs), 2, 2), complex)
    for d, drive in enumerate((p1, p2)):
        q = copy.deepcopy(p)
        q.steps = 1
        ln = q.bundles[0].lines[0]
        ln.sources = {(drive[1], drive[0]): lambda t: 1.0}
        mid = middle(q)
        for m, f in enumerate(fs):
            v, i = mid(2j*np.pi*f)
            w = []
            for side, c in (p1, p2):
                z = (ln.zs if side == "S" else ln.zl)[c]
                k, sg = (0, 1) if side == "S" else (-1, -1)
                w.append(((v[c, k] + sg*z*i[c, k])/(2*np.sqrt(z)), (v[c, k] - sg*z*i[c, k])/(2*np.sqrt(z))))
            a = w[d][0]
            S[m, 0, d], S[m, 1, d] = w[0][1]/a, w[1][1]/a
    return S


def middle(q):
    """Voltages and currents at the centres of the first and last segments (fd gives nodes and centres)."""
    def at(s):
        out = fd.solve(q, s)
        V, I = out[q.bundles[0].name]
        return (V[:, 1:] + V[:, :-1])/2, I
    return at


def compare(res, oracle, got, want, tol, detail=""):
    require(res, oracle, got.shape == want.shape, f"{got.shape} parameters, expected {want.shape}. {detail}")
    err = np.abs(got - want)
    err = np.where(np.isfinite(err), err, np.inf)
    w = np.unravel_index(np.argmax(err), err.shape)
    expect(res, oracle, err[w]/max(1.0, np.max(np.abs(want))), tol,
           f"S{w[1]+1}{w[2]+1} at frequency {w[0]}: {got[w]:.9g}, expected {want[w]:.9g}. {detail}")


def shape(p, p1, p2, plan_):
    return [gen.describe(p)["bundles"], str(p1), str(p2), steps_of(p, plan_[2])]


def signature(res, p, job, p1, p2, plan_):
    res.signature = [job["kind"]] + shape(p, p1, p2, plan_)
    res.sample = {"conductors": p.bundles[0].lines[0].n, "ports": [str(p1), str(p2)], "steps": steps_of(p, plan_[2])}


def rich(rng, **kw):
    return line_of(rng, connectors=int(rng.integers(0, 3)), per_cell=bool(rng.random() < .3), lossy=True,
                   rloc=int(rng.integers(0, 2)), gloc=int(rng.integers(0, 2)), **kw)


def definition(job, rng, res):
    p = rich(rng)
    p1, p2 = ports_of(rng, p.bundles[0].lines[0].n)
    pl = plan(rng, p)
    if steps_of(p, pl[2]) > 6000:
        raise Inconclusive("too long")
    signature(res, p, job, p1, p2, pl)
    f, S = by_definition(p, pl, p1, p2)
    if len(f) == 0:
        raise Inconclusive("no frequency in the range")
    gf, got = extract(make(p), pl, p1, p2)
    require(res, "frequencies", gf.shape == f.shape, f"{gf.shape} frequencies, expected {f.shape}")
    expect(res, "frequencies", np.max(np.abs(gf - f))/max(pl[1], 1e-300), 1e-9, "frequencies")
    res.count("frequencies compared", len(f))
    compare(res, "definition", got, S, 1e-6, f"{p1}, {p2}")


def theory(job, rng, res):
    p = line_of(rng, n=int(rng.integers(1, 4)), cells=(24, 48), connectors=int(rng.integers(0, 2)), lossy=bool(rng.random() < .7))
    b = p.bundles[0]
    ln = b.lines[0]
    p1, p2 = ports_of(rng, ln.n)
    pl = plan(rng, p, cells=float(rng.uniform(30, 60)), transits=20)
    signature(res, p, job, p1, p2, pl)
    f, N = grid(p, pl)
    if len(f) < 3 or N > 12000:
        raise Inconclusive("unsuitable range")
    gf, got = extract(make(p), pl, p1, p2)
    require(res, "frequencies", gf.shape == f.shape, "frequencies")
    pick = np.unique(np.round(np.linspace(0, len(f) - 1, 8)).astype(int))
    pick = pick[f[pick] > 0]
    want = in_theory(p, f[pick], p1, p2)
    res.count("frequencies compared", len(pick))
    compare(res, "theory", got[pick], want, 0.04, f"{p1}, {p2}")
    K = sum(b.ndiv)
    if any(b.nearest(x) in (0, K-1, K) for _, x, _ in ln.connectors):
        return                      # within half a cell of a port: the waves are not those of the terminations
    err = np.max(np.abs(got[:, 0, 1] - got[:, 1, 0]))
    expect(res, "reciprocity", err, 0.06, f"S12 and S21 of {p1}, {p2} differ")
    power = np.sum(np.abs(got)**2, axis=1)
    expect(res, "passive", np.max(power), 1.1, f"power leaving the ports {p1}, {p2}")


def ports(job, rng, res):
    p = rich(rng, n=int(rng.integers(2, 5)) if rng.random() < .8 else 1)
    n = p.bundles[0].lines[0].n
    p1, p2 = ports_of(rng, n)
    pl = plan(rng, p)
    signature(res, p, job, p1, p2, pl)
    if steps_of(p, pl[2]) > 4000:
        raise Inconclusive("too long")
    line = make(p)
    f, S = extract(line, pl, p1, p2)
    if len(f) == 0:
        raise Inconclusive("no frequency in the range")
    _, X = extract(line, pl, p2, p1)
    compare(res, "exchanged", X, S[:, ::-1, ::-1], 1e-9, f"{p1} and {p2} exchanged")
    res.count("frequencies compared", len(f))
    others = [(s, c) for c in range(n) for s in "SL" if (s, c) not in (p1, p2)]
    if others:
        p3 = others[int(rng.integers(len(others)))]
        _, Y = extract(line, pl, p1, p3)
        expect(res, "partner", np.max(np.abs(Y[:, 0, 0] - S[:, 0, 0])), 1e-9,
               f"reflection of {p1} with {p3} instead of {p2}")
    if n > 1 and not p.bundles[0].rloc and not p.bundles[0].gloc:
        perm = [int(x) for x in rng.permutation(n)]
        q = copy.deepcopy(p)
        ln = q.bundles[0].lines[0]
        ln.l, ln.c, ln.r, ln.g = (m[np.ix_(perm, perm)] for m in (ln.l, ln.c, ln.r, ln.g))
        ln.zs, ln.zl = ln.zs[perm], ln.zl[perm]
        ln.connectors = [(perm.index(c), x, m) for c, x, m in ln.connectors]
        new = lambda q_: (q_[0], perm.index(q_[1]))
        _, Z = extract(make(q), pl, new(p1), new(p2))
        compare(res, "renumbered", Z, S, 1e-7, f"conductors renumbered {perm}")


def reversed_(job, rng, res):
    p = line_of(rng, lossy=True)
    n = p.bundles[0].lines[0].n
    p1, p2 = ports_of(rng, n)
    pl = plan(rng, p)
    signature(res, p, job, p1, p2, pl)
    if steps_of(p, pl[2]) > 6000:
        raise Inconclusive("too long")
    q = copy.deepcopy(p)
    b = q.bundles[0]
    ln = b.lines[0]
    b.points = b.points[::-1].copy()
    b.ndiv = list(b.ndiv)[::-1]
    ln.zs, ln.zl = ln.zl.copy(), ln.zs.copy()
    other = lambda x: ("L" if x[0] == "S" else "S", x[1])
    f, S = extract(make(p), pl, p1, p2)
    if len(f) == 0:
        raise Inconclusive("no frequency in the range")
    _, R = extract(make(q), pl, other(p1), other(p2))
    res.count("frequencies compared", len(f))
    compare(res, "reversed", R, S, 1e-7, "line drawn from the other end")


def state(job, rng, res):
    p = rich(rng)
    n = p.bundles[0].lines[0].n
    p1, p2 = ports_of(rng, n)
    pl = plan(rng, p)
    signature(res, p, job, p1, p2, pl)
    if steps_of(p, pl[2]) > 6000:
        raise Inconclusive("too long")
    f, S = extract(make(p), pl, p1, p2)
    if len(f) == 0:
        raise Inconclusive("no frequency in the range")
    line, twin = make(p), make(p)
    probes = []
    x = p.bundles[0].at(float(rng.uniform(0, 1)))
    start = rng.normal(size=line.v.shape)
    earlier = int(rng.integers(5, 40)) + .5
    for o in (line, twin):
        probes.append([o.add_probe(np.array(x), k) for k in ("voltage", "current")])
        o.v[:] = start
        o.run_until(earlier*p.dt)
    before = digest(line)
    g, X = extract(line, pl, p1, p2)
    require(res, "unchanged", same(before, digest(line)), f"the line changed while {p1}, {p2} were extracted")
    if np.count_nonzero(line.i) == 0:
        raise Inconclusive("the line was at rest")
    require(res, "fresh", np.array_equal(g, f), "frequencies of a line that has run")
    compare(res, "fresh", X, S, 1e-9, "a line that has run before against a fresh one")
    res.count("frequencies compared", len(f))
    for o in (line, twin):
        o.run_until(30.5*p.dt)
    for a, b in zip(*probes):
        require(res, "unchanged", np.array_equal(a.val, b.val) and np.array_equal(a.t, b.t),
                "the run after the extraction differs from one without it")


def run_job(job, res):
    rng = gen.rng_of(job)
    {"definition": definition, "theory": theory, "ports": ports, "state": state, "reversed": reversed_}[job["kind"]](job, rng, res)
