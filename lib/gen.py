"""Seeded generators of MTL problems."""
import contextlib

import numpy as np

from lib.spec import BundleSpec, LineSpec, Model, NetSpec, Problem, TransferSpec, default_dt


def rng_of(job):
    import hashlib
    h = hashlib.sha256(f'{job["kind"]}/{job["seed"]}'.encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


def jobs_from(plan, tier, rng):
    """plan: {kind: (quick, thorough)}"""
    out = []
    for kind, (q, t) in plan.items():
        n = q if tier == "quick" else t
        for _ in range(n):
            out.append({"kind": kind, "seed": rng.randrange(10**9)})
    return out


# ---- waveforms: plain functions of t, as a user writes them -------------------------------------

def gaussian(A, t0, s):
    def f(t):
        return A*np.exp(-(t - t0)**2/(2*s**2))
    f.label = f"gauss({A:.3g})"
    return f


def ramp(A, tr):
    def f(t):
        return A*min(max(t/tr, 0.0), 1.0)
    f.label = f"ramp({A:.3g})"
    return f


def sine(A, w):
    def f(t):
        return A*np.sin(w*t)*(t > 0)
    f.label = f"sine({A:.3g})"
    return f


def trapezoid(A, tr, width):
    def f(t):
        return A*max(0.0, min(t/tr, 1.0, (2*tr + width - t)/tr))
    f.label = f"trap({A:.3g})"
    return f


def pulse(A, a, b):
    def f(t):
        return A*(a < t < b)
    f.label = f"pulse({A:.3g})"
    return f


def waveform(rng, T):
    """A random drive over a window of length T."""
    A = float(rng.choice([-1, 1])*10**rng.uniform(-1, 2))
    k = rng.integers(5)
    if k == 0:
        return gaussian(A, T*rng.uniform(.1, .4), T*rng.uniform(.02, .1))
    if k == 1:
        return ramp(A, T*rng.uniform(.05, .5))
    if k == 2:
        return sine(A, 2*np.pi/T*rng.uniform(1, 8))
    if k == 3:
        return trapezoid(A, T*rng.uniform(.03, .2), T*rng.uniform(.05, .3))
    return pulse(A, T*rng.uniform(-.05, .2), T*rng.uniform(.3, .6))


# ---- line parameters ----------------------------------------------------------------------------

def spd(rng, n, lo, hi):
    """Random symmetric positive definite matrix with eigenvalues in [lo, hi]."""
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    w = lo*(hi/lo)**rng.uniform(size=n)
    m = (q*w) @ q.T
    return (m + m.T)/2


def lc(rng, n, homogeneous=None):
    v = rng.uniform(0.9e8, 3e8)
    z = 10**rng.uniform(1.3, 2.6)
    base = z/v
    if n == 1:
        return np.array([[base]]), np.array([[1/(base*v*v)]])
    shape = np.eye(n)*rng.uniform(1, 1.6, size=n) + 0
    for a in range(n):
        for b in range(a):
            shape[a, b] = shape[b, a] = rng.uniform(0.1, 0.6)
    shape = shape + 0.15*n*np.eye(n)
    L = base*shape
    C = np.linalg.inv(L)/v**2
    if homogeneous is None:
        homogeneous = rng.random() < 0.3
    if not homogeneous:
        d = rng.uniform(0.85, 1.15, size=n)
        C = C*np.outer(d, d)
    return L, (C + C.T)/2


def loss(rng, n, scale):
    """Series resistance (diagonal plus weak coupling through the return) per metre."""
    if rng.random() < 0.3:
        return np.zeros((n, n))
    m = np.diag(scale*rng.uniform(0.2, 2, size=n))
    if n > 1 and rng.random() < 0.5:
        m = m + scale*rng.uniform(0, .1)*np.ones((n, n))
    return m


HAIRPIN = .15


@contextlib.contextmanager
def hairpins(chance):
    """More of the paths drawn inside run back along themselves."""
    global HAIRPIN
    old, HAIRPIN = HAIRPIN, chance
    try:
        yield
    finally:
        HAIRPIN = old


def points(rng, segments=None, scale=None):
    scale = scale or 10**rng.uniform(-1, 1)
    if segments is None and rng.random() < HAIRPIN:
        return hairpin(rng, scale)
    pts = path(rng, segments or int(rng.integers(1, 4)), scale)
    if rng.random() < .15:                     # both ends equally far from the origin
        pts = pts - (pts[0] + pts[-1])/2
    return pts


def hairpin(rng, scale):
    """Forth and back at a small distance: every point has a neighbour on the other arm."""
    q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    if rng.random() < .5:
        q = np.eye(3)[rng.permutation(3)]*rng.choice([-1, 1], size=3)
    arm, gap = scale*rng.uniform(.7, 1.5), scale*rng.uniform(.15, .5)
    back = arm*(1 if rng.random() < .5 else rng.uniform(.6, 1.3))
    o = rng.normal(size=3)*scale if rng.random() < .5 else np.zeros(3)
    return o + np.array([0*q[0], arm*q[0], arm*q[0] + gap*q[1], (arm - back)*q[0] + gap*q[1]])


def path(rng, segments, scale):
    style = rng.integers(3)
    p = [rng.normal(size=3)*scale if style else np.zeros(3)]
    for _ in range(segments):
        if style == 0:
            step = np.array([0, 0, 1.0])
        elif style == 1:
            step = np.zeros(3)
            step[rng.integers(3)] = rng.choice([-1, 1])
            if len(p) > 1 and np.allclose(np.sign(step), -np.sign(p[-1]-p[-2])):
                step = -step
        else:
            step = rng.normal(size=3)
            step /= np.linalg.norm(step)
        p.append(p[-1] + step*scale*rng.uniform(0.5, 1.5))
    return np.array(p)


def geometry(rng, cells=(8, 26), segments=None, scale=None, uniform=False):
    if uniform:
        pts = points(rng, 1, scale)
        return pts, [int(rng.integers(*cells))]
    while True:
        pts = points(rng, segments, scale)
        k = len(pts) - 1
        ndiv = [max(1, int(rng.integers(cells[0], cells[1])//k + rng.integers(-2, 3))) for _ in range(k)]
        if rng.random() < .35:                 # segments of about the same length
            part = np.linalg.norm(np.diff(pts, axis=0), axis=1)
            ndiv = [max(1, int(round(sum(ndiv)*q/sum(part)))) for q in part]
        if sum(ndiv) < 4:
            continue
        seg = np.linalg.norm(np.diff(pts, axis=0), axis=1)/ndiv
        if seg.max()/seg.min() < 5:
            return pts, ndiv


def line(rng, n, name, length, lossy=True):
    L, C = lc(rng, n)
    z = np.sqrt(L[0, 0]/C[0, 0])
    R = loss(rng, n, z/length) if lossy else np.zeros((n, n))
    G = loss(rng, n, 1/z/length) if lossy else np.zeros((n, n))
    return LineSpec(name, L, C, R, G)


def percell(rng, K):
    """Per-cell multipliers: the medium changes along the line."""
    return {"l": 1 + 0.3*rng.random(K), "c": 1 + 0.3*rng.random(K+1),
            "r": 2*rng.random(K), "g": 2*rng.random(K+1)}


def model(rng, z, T, poles=None):
    """A passive series impedance of order z: cte + s prop + parallel RC / RLC sections."""
    m = Model()
    kind = rng.integers(4)
    if kind != 1:
        m.cte = float(z*rng.uniform(0.05, 2)) if rng.random() < .8 else 0.0
    if kind != 2:
        m.prop = float(z*T*rng.uniform(0.002, 0.05)) if rng.random() < .8 else 0.0
    poles = int(rng.integers(0, 4) if rng.random() < .92 else rng.integers(4, 9)) if poles is None else poles
    k = 0
    while k < poles:
        if poles - k >= 2 and rng.random() < 0.5:
            a, w = 10**rng.uniform(-.3, 1)/T, 10**rng.uniform(0, 1.2)/T
            r = z*10**rng.uniform(-.5, .8)/T
            q = r*a/w*rng.uniform(-.95, .95) if rng.random() < .6 else 0.0         # passive: |q| w <= r a
            m.poles += [complex(-a, w), complex(-a, -w)]
            m.residues += [complex(r, q), complex(r, -q)]
            k += 2
        else:
            a = 10**rng.uniform(-.3, 1.5)/T
            m.poles.append(complex(-a, 0))
            m.residues.append(complex(z*a*rng.uniform(.1, 2), 0))
            k += 1
    if m.cte == 0 and m.prop == 0 and not m.poles:
        m.cte = float(z)
    return m


# ---- whole problems -----------------------------------------------------------------------------

def window(b, line_velocity_min, transits):
    return b.length/line_velocity_min*transits


def vmin(line):
    return 1/np.sqrt(np.max(np.real(np.linalg.eigvals(line.l @ line.c))))


def has_source(problem):
    return any(b.local or b.fields or any(l.sources for l in b.lines) for b in problem.bundles) or \
        any(e[-1] is not None
            and (e[0] in ("RR", "SS", "short") or e[1] not in {x[1] for x in n.elements if x[0] == "short"})
            for n in problem.nets for e in n.elements)


def ensure_source(rng, problem, T):
    if not has_source(problem):
        net = problem.nets[int(rng.integers(len(problem.nets)))]
        nid = next(iter(net.nodes))
        net.elements = [e for e in net.elements if not (e[0] == "short" and e[1] == nid)]
        bname, ln = net.nodes[nid][:2]
        net.elements.append(("R", nid, resistor(rng, np.sqrt(ln.l[0, 0]/ln.c[0, 0])), waveform(rng, T)))


def finish(rng, problem, transits, courant=None, max_steps=400):
    problem.dt = default_dt(problem)*(courant if courant is not None else
                                      (1.0 if rng.random() < .4 else float(rng.uniform(.4, 1.0))))
    T = max(b.length/vmin(l) for b in problem.bundles for l in b.lines)*transits
    problem.steps = int(min(max_steps, max(12, T/problem.dt)))
    problem.own = bool(rng.random() < .7)
    return problem.steps*problem.dt


def estimate_T(bundles, transits, max_steps=400):
    dt = min(np.min(b.seglen())/(1/np.sqrt(np.min(np.real(np.linalg.eigvals(l.l @ l.c)))))
             for b in bundles for l in b.lines)
    T = max(b.length/vmin(l) for b in bundles for l in b.lines)*transits
    return min(T, max_steps*dt)


def resistor(rng, z):
    return float(z*10**rng.uniform(-1.5, 1.5))


def standalone(rng, n=None, lossy=True, cells=(8, 26), segments=None, connectors=0, per_cell=False,
               transits=3.0, uniform=False, courant=None, sources=True, max_steps=400, rloc=0, gloc=0):
    n = n or int(rng.integers(1, 5))
    pts, ndiv = geometry(rng, cells, segments, uniform=uniform)
    b = BundleSpec("b0", pts, ndiv, [[]])
    ln = line(rng, n, "line0", b.length, lossy)
    b.levels[0].append(ln)
    z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
    ln.zs = np.array([resistor(rng, z) for _ in range(n)])
    ln.zl = np.array([resistor(rng, z) for _ in range(n)])
    if rng.random() < .15:
        ln.zs[rng.integers(n)] = 0.0
    if rng.random() < .15:
        ln.zl[rng.integers(n)] = 0.0
    if per_cell:
        ln.percell = percell(rng, sum(ndiv))
    T = estimate_T([b], transits, max_steps)
    if sources:
        slots = [(c, s) for c in range(n) for s in "SL"]
        m = int(rng.integers(1, len(slots)+1))
        for q in rng.permutation(len(slots))[:m]:
            ln.sources[slots[q]] = waveform(rng, T)
    add_connectors(rng, b, ln, connectors, z, T)
    for _ in range(rloc):
        a, e = sorted(rng.uniform(0, 1, size=2))
        while b.nearest(b.at(a)) > b.nearest(b.at(e)):
            a, e = sorted(rng.uniform(0, 1, size=2))
        if rng.random() < .3:
            e = a
        b.rloc.append((b.at(a), b.at(e), int(rng.integers(n)), float(z*rng.uniform(.1, 2))))
    for _ in range(gloc):
        a, e = sorted(rng.uniform(0, 1, size=2))
        while b.nearest(b.at(a)) > b.nearest(b.at(e)):
            a, e = sorted(rng.uniform(0, 1, size=2))
        if rng.random() < .3:
            e = a
        b.gloc.append((b.at(a), b.at(e), int(rng.integers(n)), float(rng.uniform(.1, 2)/z)))
    p = Problem([b], standalone=True)
    finish(rng, p, transits, courant, max_steps)
    return p


def add_connectors(rng, b, ln, count, z, T):
    used = set()
    u = b.nodes()
    K = len(u) - 1
    for _ in range(count):
        k = int(rng.integers(0, K+1))
        c = int(rng.integers(ln.n))
        cell = min(k, K-1)
        if (cell, c) in used:
            continue
        used.add((cell, c))
        ln.connectors.append((c, u[k], model(rng, z, T)))


def bundle(rng, name, depth=1, cells=(8, 20), prefix="", lines_per_level=None, max_n=3, lossy=True,
           pts=None, ndiv=None):
    if pts is None:
        pts, ndiv = geometry(rng, cells)
    b = BundleSpec(name, pts, ndiv, [])
    for lev in range(depth):
        level = []
        count = 1 if lev == 0 else (lines_per_level or int(rng.choice([1, 2, 3], p=[.5, .4, .1])))
        for q in range(count):
            n = int(rng.integers(1, max_n+1)) + (3 if max_n > 1 and rng.random() < .04 else 0)
            level.append(line(rng, n, f"{prefix}{name}_{lev}_{q}", b.length, lossy))
        b.levels.append(level)
    return b


def vary(rng, bundles, chance):
    """Lines whose medium changes from cell to cell, with the given chance each."""
    for b in bundles:
        for ln in b.lines:
            if rng.random() < chance:
                ln.percell = percell(rng, sum(b.ndiv))


def end_net(rng, b, side, ids, T, rich=True, sources=True, lines=None, coupled=True):
    """A termination of every conductor of a bundle at one end."""
    net = NetSpec({}, [])
    for ln in (lines or b.lines):
        z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
        mine = []
        for c in range(ln.n):
            nid = next(ids)
            net.nodes[nid] = (b.name, ln, c, side)
            mine.append(nid)
            src = waveform(rng, T) if sources and rng.random() < .4 else None
            kind = rng.integers(6) if rich else 0
            if kind <= 1:
                net.elements.append(("R", nid, resistor(rng, z), src))
            elif kind == 2:
                net.elements.append(("C", nid, float(T/z*10**rng.uniform(-2.5, -0.5)), src))
            elif kind == 3:
                net.elements.append(("LCpRs", nid, float(z*rng.uniform(.2, 2)), float(T*z*10**rng.uniform(-2.5, -1)),
                                     float(T/z*10**rng.uniform(-2.5, -1)), src))
            elif kind == 4:
                net.elements.append(("short", nid, src))
            else:
                net.elements.append(("R", nid, resistor(rng, z), None))
                net.elements.append(("R", nid, resistor(rng, z), src))
        if coupled and len(mine) > 1 and rng.random() < .4:
            a, e = rng.permutation(len(mine))[:2]
            src = waveform(rng, T) if sources and rng.random() < .3 else None
            net.elements.append(("RR", mine[a], mine[e], resistor(rng, z), src))
    return net


def counter(rng):
    k = int(rng.integers(0, 5))
    while True:
        yield k
        k += int(rng.integers(1, 4))


def single_bundle(rng, depth=1, cells=(8, 20), rich=True, transits=3.0, transfers=0, connectors=0,
                  max_n=3, lossy=True, sources=True, courant=None, max_steps=300, lines_per_level=None,
                  end_transfers=0, local=0, rloc=0, gloc=0, uniform=False, media=0.12):
    pts, ndiv = geometry(rng, cells, uniform=uniform)
    b = bundle(rng, "b0", depth, max_n=max_n, lossy=lossy, pts=pts, ndiv=ndiv, lines_per_level=lines_per_level)
    vary(rng, [b], media)
    T = estimate_T([b], transits, max_steps)
    ids = counter(rng)
    nets = [end_net(rng, b, "S", ids, T, rich, sources), end_net(rng, b, "L", ids, T, rich, sources)]
    for _ in range(transfers):
        transfer(rng, b, T)
    for _ in range(end_transfers):
        transfer(rng, b, T, side=str(rng.choice(["initial", "end"])))
    for ln in b.lines:
        add_connectors(rng, b, ln, int(rng.integers(0, connectors+1)), np.sqrt(ln.l[0, 0]/ln.c[0, 0]), T)
    for _ in range(local):
        a, e = sorted(rng.uniform(0, 1, size=2))
        if e - a > 1e-3:
            b.local.append((b.at(a), b.at(e), int(rng.integers(b.n)), waveform(rng, T)))
    z = np.sqrt(b.lines[0].l[0, 0]/b.lines[0].c[0, 0])
    for k in range(rloc + gloc):
        a, e = sorted(rng.uniform(0, 1, size=2))
        while b.nearest(b.at(a)) > b.nearest(b.at(e)):
            a, e = sorted(rng.uniform(0, 1, size=2))
        (b.rloc if k < rloc else b.gloc).append(
            (b.at(a), b.at(e), int(rng.integers(b.n)), float(rng.uniform(.1, 2)*(z if k < rloc else 1/z))))
    b.early = bool(rng.random() < .4)
    p = Problem([b], nets)
    finish(rng, p, transits, courant, max_steps)
    if sources:
        ensure_source(rng, p, T)
    return p


def transfer(rng, b, T, side=None, out_level=None, strength=None, poles=None, existing=True):
    if len(b.levels) < 2:
        return
    widths = [sum(l.n for l in lev) for lev in b.levels]
    out = int(rng.integers(0, len(b.levels)-1)) if out_level is None else out_level
    inn = out + 1
    if rng.random() < .25:                     # given the other way round: the driving level is the deeper one
        out, inn = inn, out
    oc = sorted(int(x) for x in rng.permutation(widths[out])[:rng.integers(1, widths[out]+1)])
    ic = sorted(int(x) for x in rng.permutation(widths[inn])[:rng.integers(1, widths[inn]+1)])
    z = np.sqrt(b.lines[0].l[0, 0]/b.lines[0].c[0, 0])*(strength or 10**rng.uniform(-2.5, -.8))/b.length
    m = model(rng, z, T, poles)
    b.transfers.append(TransferSpec(out, oc, inn, ic, m, str(rng.choice(["in", "in", "both", "out"])),
                                    float(rng.uniform(.5, 3)) if rng.random() < .3 else None, side))


def junction_problem(rng, count=None, cells=(6, 16), rich=True, transits=2.5, max_n=3, shorts=False,
                     sources=True, depth=1, courant=None, max_steps=300, lossy=True, media=0.12):
    """Several bundles meeting at one junction, each terminated at its far end."""
    count = count or int(rng.integers(2, 4))
    ids = counter(rng)
    scale = 10**rng.uniform(-1, 1)
    bundles = []
    for q in range(count):
        pts, ndiv = geometry(rng, cells, scale=scale)
        bundles.append(bundle(rng, f"b{q}", depth, max_n=max_n, lossy=lossy, pts=pts, ndiv=ndiv, lines_per_level=1))
    vary(rng, bundles, media)
    T = estimate_T(bundles, transits, max_steps)
    nets = []
    junction = NetSpec({}, [])
    per_level = {}
    for b in bundles:
        side = str(rng.choice(["S", "L"]))
        far = "L" if side == "S" else "S"
        nets.append(end_net(rng, b, far, ids, T, rich, sources))
        for lev, lines in enumerate(b.levels):
            for ln in lines:
                for c in range(ln.n):
                    nid = next(ids)
                    junction.nodes[nid] = (b.name, ln, c, side)
                    per_level.setdefault(lev, []).append(nid)
    z = np.sqrt(bundles[0].lines[0].l[0, 0]/bundles[0].lines[0].c[0, 0])
    for lev, nids in per_level.items():
        nids = [nids[k] for k in rng.permutation(len(nids))]
        # a spanning set of connections (no floating node is needed: every line end has capacitance)
        for a, e in zip(nids[:-1], nids[1:]):
            if rng.random() < .75:
                if shorts and rng.random() < .5:
                    junction.elements.append(("SS", a, e, waveform(rng, T) if sources and rng.random() < .4 else None))
                else:
                    src = waveform(rng, T) if sources and rng.random() < .3 else None
                    junction.elements.append(("RR", a, e, resistor(rng, z), src))
        if len(nids) > 2 and rng.random() < .5 and not shorts:
            junction.elements.append(("RR", nids[0], nids[-1], resistor(rng, z), None))
        if len(nids) > 1 and rng.random() < .25:                 # a second one, perhaps given the other way round
            a, e = (int(x) for x in rng.permutation(len(nids))[:2])
            src = waveform(rng, T) if sources and rng.random() < .3 else None
            junction.elements.append(("RR", nids[a], nids[e], resistor(rng, z), src))
            if rng.random() < .5:
                junction.elements.append(("RR", nids[e], nids[a], resistor(rng, z), None))
        for nid in nids:
            if rng.random() < (.3 if rich else 0):
                junction.elements.append(("R", nid, resistor(rng, z),
                                          waveform(rng, T) if sources and rng.random() < .5 else None))
            if rng.random() < (.2 if rich else 0):
                junction.elements.append(("C", nid, float(T/z*10**rng.uniform(-2.5, -1)), None))
    nets.insert(int(rng.integers(0, len(nets)+1)), junction)
    p = Problem(bundles, nets)
    finish(rng, p, transits, courant, max_steps)
    if sources:
        ensure_source(rng, p, T)
    return p


def drop_sources(problem):
    for b in problem.bundles:
        b.local = []
        for ln in b.lines:
            ln.sources = {}
    for net in problem.nets:
        net.elements = [e[:-1] + (None,) for e in net.elements]
    return problem


def describe(problem):
    """A signature of the shape of a problem, for counting distinct cases."""
    return {
        "bundles": [[list(map(int, b.ndiv)), [[l.n for l in lev] for lev in b.levels],
                     len(b.transfers), len(b.local), len(b.rloc), len(b.gloc), len(b.fields),
                     [len(l.connectors) for l in b.lines]] for b in problem.bundles],
        "elements": [[e[0] for e in n.elements] for n in problem.nets],
        "steps": problem.steps, "dt": float(f"{problem.dt:.3e}"),
    }


def incident_field(rng, b, T, region=False, integrals=None, quiet=False):
    """An incident field over a bundle: polynomial in space or a travelling wave, gaussian in time.
    Fields uniform along the separation keep the repository's symbolic integral closed (cheap)."""
    import sympy as sp
    from lib.spec import FieldSpec
    x, y, z, t, v = sp.symbols("x y z t v")
    n0 = sum(l.n for l in b.levels[0])
    K = sum(b.ndiv)
    size = b.length
    t0, s0 = T*rng.uniform(.15, .4), T*rng.uniform(.05, .12)
    if quiet:                                   # nothing before the run starts
        s0 /= 2
        t0 = 7.5*s0
    style = int(rng.integers(4)) if integrals is None else (int(rng.integers(2, 4)) if integrals else int(rng.integers(2)))
    amp = 10**rng.uniform(0, 2)*rng.normal(size=3)
    late = size*float(rng.uniform(.1, .5))/v if not quiet and rng.random() < .4 else 0      # depends on the velocity of each place
    wave = sp.exp(-(t - late - t0)**2/(2*s0**2))
    if style == 0:                              # along one axis, varying across the others
        ax = int(rng.integers(3))
        amp = np.where(np.arange(3) == ax, amp, 0.0)
        o = [q for k, q in enumerate((x, y, z)) if k != ax]
        shape = 1 + float(rng.normal())*o[0]/size + float(rng.normal())*o[1]/size + float(rng.normal())*(o[0]/size)**2
        e = [float(a)*shape*wave for a in amp]
    elif style == 1:                            # uniform in space
        e = [float(a)*wave for a in amp]
    elif style == 2:                            # polynomial in everything
        e = [float(a)*(1 + sum(float(rng.normal())*q/size for q in (x, y, z)))*wave for a in amp]
    else:                                       # a travelling wave
        d = rng.normal(size=3)
        d /= np.linalg.norm(d)
        arg = t - float(d[0])*x/v - float(d[1])*y/v - float(d[2])*z/v
        e = [float(a)*sp.exp(-(arg - t0)**2/(2*s0**2)) for a in amp]
    fn = sp.lambdify((x, y, z, t, v), e, "numpy")
    dist = rng.normal(size=(n0, 1, 3))*0.05*size*np.ones((1, K+1, 1))
    if rng.random() < .3:
        dist = dist*(1 + 0.2*rng.normal(size=(n0, K+1, 1)))
    if n0 > 1 and rng.random() < .3:
        dist[int(rng.integers(n0))] = 0.0
    reg = None
    if region:
        u = b.nodes()
        i, j = sorted(rng.permutation(K+1)[:2])
        reg = (u[i], u[j])
        if rng.random() < .4:                   # points near the nodes, not on them
            near = tuple(x + rng.normal(size=3)*.1*np.min(b.seglen()) for x in reg)
            if [b.nearest(x) for x in near] == [i, j]:
                reg = near
    fs = FieldSpec(lambda X, Y, Z, t_, v_: fn(X, Y, Z, t_, v_), lambda: tuple(e), {b.name: dist}, reg)
    fs.style, fs.by_speed = style, style == 3 or late != 0
    b.fields.append(fs)
    return fs
