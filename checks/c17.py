"""C17: incident fields: reference simulator over polynomial fields and travelling waves, exact equivalence with
localized sources and end sources, transmission-line theory, quasi-static open line, zero separation, managers."""
import numpy as np

from lib import fd, gen, refsim, staged
from lib import transform as tf
from lib.build import Sim
from lib.compare import against_reference, chunks_of, scales, simulate_and_compare
from lib.core import Inconclusive, expect, require
from lib.spec import FieldSpec

PROPERTY = "C17"
TECHNIQUE = "runtime monitor: recorded histories under incident fields against an independent simulator sampling the field itself, and against the equivalent localized and end sources; transmission-line theory on the recorded response"
LEVEL_NOTE = "Observes every node, segment and conductor of seeded random lines, bundles and networks; exploration."
RULE = "a case is one structure with its incident fields; non-trivial when a field drives at least one conductor; distinct by shape, field style, separations and stretch"
ASSUMPTIONS = ["sources act one time step late, as everywhere in the program", "travelling waves use the highest phase velocity of the segment for v",
               "stretches given in the direction of the line", "the shunt loss of the line sees the total voltage only"]
MUST_OBSERVE = {"oracle:reference": 100, "oracle:equivalent": 24, "oracle:zero": 8, "oracle:open": 8, "oracle:theory": 20, "oracle:manager": 12,
                "waves": 2, "fields that depend on the velocity": 25, "limited to a stretch": 12, "oracle:split": 8, "oracle:planewave": 8, "oracle:later": 8}


def jobs(tier, rng):
    return gen.jobs_from({"line": (30, 260), "bundle": (24, 220), "others": (20, 180), "integrals": (14, 110), "junction": (10, 90),
                          "stretch": (24, 200), "equivalent": (18, 160), "theory": (6, 60), "zero": (8, 60), "open": (8, 60),
                          "manager": (8, 60), "split": (8, 60), "planewave": (8, 60), "later": (10, 80)}, tier, rng)


def field(res, rng, b, T, region=False, integrals=False, quiet=False):
    fs = gen.incident_field(rng, b, T, region=region, integrals=integrals, quiet=quiet)
    res.count("waves", int(fs.style == 3))
    res.count("fields that depend on the velocity", int(fs.by_speed))
    res.count("limited to a stretch", int(region))
    return fs


def label(p):
    return [[fs.style, fs.region is not None, np.round(d, 3).tolist()] for b in p.bundles for fs in b.fields for d in [fs.distances[b.name][:, 0]]]


def run_job(job, res):
    rng = gen.rng_of(job)
    kind = job["kind"]
    if kind == "later":                        # fields added between runs
        p = gen.standalone(rng, per_cell=rng.random() < .2, n=int(rng.integers(1, 3)), max_steps=110, sources=rng.random() < .5) if rng.random() < .5 else \
            gen.single_bundle(rng, depth=int(rng.integers(1, 3)), max_n=2, sources=rng.random() < .5, local=1, max_steps=110)
        for _ in range(int(rng.integers(1, 4))):
            field(res, rng, p.bundles[0], p.steps*p.dt, region=rng.random() < .4)
        staged.run(rng, res, p, ("fields", "local"), oracle="later")
        res.signature = label(p)
        return
    special = {"equivalent": equivalent, "theory": equivalent, "zero": zero, "open": opened, "manager": manager, "split": split, "planewave": planewave}
    if kind in special:
        return special[kind](rng, res, kind)
    if kind == "line":
        p = gen.standalone(rng, per_cell=rng.random() < .2, n=int(rng.integers(1, 4)), max_steps=160, connectors=int(rng.integers(0, 2)), sources=rng.random() < .5)
        for _ in range(int(rng.integers(1, 3))):
            field(res, rng, p.bundles[0], p.steps*p.dt, region=rng.random() < .2)
    elif kind == "bundle":
        p = gen.single_bundle(rng, depth=int(rng.integers(1, 4)), max_n=3, transfers=int(rng.integers(0, 2)), sources=rng.random() < .4, max_steps=110)
        for _ in range(int(rng.integers(1, 3))):
            field(res, rng, p.bundles[0], p.steps*p.dt, region=rng.random() < .2)
    elif kind == "others":
        p = gen.single_bundle(rng, depth=int(rng.integers(1, 3)), max_n=3, transfers=1, connectors=1, local=2, rloc=1, gloc=1, max_steps=110)
        for _ in range(int(rng.integers(1, 4))):
            field(res, rng, p.bundles[0], p.steps*p.dt, region=rng.random() < .3)
    elif kind == "integrals":
        p = gen.standalone(rng, n=int(rng.integers(1, 3)), cells=(5, 9), max_steps=60, sources=rng.random() < .4) if rng.random() < .5 else \
            gen.single_bundle(rng, depth=int(rng.integers(1, 3)), max_n=2, cells=(5, 9), max_steps=60, sources=rng.random() < .4)
        field(res, rng, p.bundles[0], p.steps*p.dt, region=rng.random() < .3, integrals=True)
    elif kind == "junction":
        p = gen.junction_problem(rng, max_n=2, depth=int(rng.integers(1, 3)), max_steps=140, sources=False)
        for b in p.bundles:
            if rng.random() < .7 or b is p.bundles[0]:
                field(res, rng, b, p.steps*p.dt, region=rng.random() < .2)
    else:
        with gen.hairpins(.6):
            p = gen.standalone(rng, per_cell=rng.random() < .2, n=int(rng.integers(1, 4)), max_steps=160, sources=rng.random() < .3) if rng.random() < .5 else \
                gen.single_bundle(rng, depth=int(rng.integers(1, 3)), max_n=2, max_steps=160, sources=rng.random() < .3)
        for _ in range(int(rng.integers(1, 3))):
            field(res, rng, p.bundles[0], p.steps*p.dt, region=True)
    sim, got, ref = simulate_and_compare(res, p, rng, tol=1e-6)
    res.signature = [gen.describe(p), label(p)]
    res.sample = {"fields": label(p), "max": scales(ref)}


def drives(b, dt):
    """Longitudinal drive per segment and transverse voltage per node of each driven conductor, as functions of time."""
    rb = refsim.RefBundle(b, dt)
    u, K = rb.u, rb.K
    along, across = {}, {}

    def seg(fs, c, k):
        d = fs.distances[b.name][c, k]
        tangent = (u[k+1] - u[k])/np.linalg.norm(u[k+1] - u[k])
        mid = (u[k] + u[k+1])/2
        return lambda t: np.dot(np.array(fs.fn(*(mid + d), t, rb.vmax[k])) - np.array(fs.fn(*mid, t, rb.vmax[k])), tangent)

    def node(fs, c, k):
        d = fs.distances[b.name][c, k]
        x, w = np.polynomial.legendre.leggauss(16)
        x, w = (x + 1)/2, w/2

        def f(t):
            return sum(wi*np.dot(fs.fn(*(u[k] + xi*d), t, rb.vmax[min(k, K-1)]), d) for xi, wi in zip(x, w))
        return f

    def total(fs):
        return (lambda t: 0.0) if not fs else (lambda t: sum(f(t) for f in fs))
    n0 = b.levels[0][0].n
    for c in range(n0):
        for k in range(K):
            along[c, k] = total([seg(fs, c, k) for fs in b.fields if covers(fs, u, k, k+1)])
        for k in range(K+1):
            across[c, k] = total([node(fs, c, k) for fs in b.fields if covers(fs, u, k, k)])
    return along, across


def covers(fs, u, lo, hi):
    if fs.region is None:
        return True
    i, j = (int(np.argmin(np.linalg.norm(u - x, axis=1))) for x in fs.region)
    return i <= lo and hi <= j


def equivalent(rng, res, kind):
    """A field does what its longitudinal part along each segment and its transverse part at the two ends do, the recorded
    voltage being less the transverse part (lines without shunt loss)."""
    theory = kind == "theory"
    p = gen.single_bundle(rng, depth=int(rng.integers(1, 3)), max_n=2, cells=(20, 28) if theory else (6, 14), max_steps=500 if theory else 120,
                          sources=False, transfers=0 if theory else int(rng.integers(0, 2)), transits=12 if theory else 3,
                          uniform=theory, connectors=0 if theory else 1, media=0 if theory else .12)
    b = p.bundles[0]
    for ln in b.lines:
        ln.g = np.zeros((ln.n, ln.n))
    fs = field(res, rng, b, p.steps*p.dt, region=not theory and rng.random() < .3, quiet=True)
    if theory:
        T = b.length/gen.vmin(b.lines[0])
        smooth(rng, fs, b, T)
    along, across = drives(b, p.dt)
    if theory:      # separable: the same shape of time everywhere
        along, across = ({key: gen.gaussian(float(f(fs.t0)), fs.t0, fs.s0) for key, f in group.items()} for group in (along, across))
    K = len(b.seglen())
    if all(abs(f(t)) == 0 for f in along.values() for t in np.linspace(0, p.steps*p.dt, 7)) and \
            all(abs(f(t)) == 0 for f in across.values() for t in np.linspace(0, p.steps*p.dt, 7)):
        raise Inconclusive("the field drives nothing")
    q = tf.clone(p)
    bq = q.bundles[0]
    bq.fields = []
    u = bq.nodes()
    for (c, k), f in along.items():
        bq.local.append((u[k], u[k+1], c, f))
    for net in q.nets:
        def at(nid):
            bn, ln, c, side = net.nodes[nid]
            return across.get((b.offset(next(x for x in b.lines if x.name == ln.name)) + c, 0 if side == "S" else K), None)
        out = []
        for e in net.elements:
            f = at(e[1])
            if e[0] in ("RR", "SS"):
                g = at(e[2])
                # a current through R from node 2 to node 1 for a positive source
                out.append(e[:-1] + (minus(f, g) if f or g else None,))
            elif e[0] in tf.WITH_SOURCE:
                out.append(e[:-1] + (f,))
            else:
                out.append(e)
        net.elements = out
    a, z = Sim(p).run(chunks_of(rng, p.steps))[b.name], Sim(q).run(chunks_of(rng, p.steps))[b.name]
    V = a[0].copy()
    for (c, k), f in across.items():
        V[:, c, k] += np.array([f(m*p.dt) for m in range(p.steps)])
    got, exp = {b.name: (V, a[1])}, {b.name: z}
    against_reference(res, got, exp, 1e-7, "equivalent", need_signal=False)
    if theory:
        fd.compare(res, q, got, rng, oracle="theory", tol=0.2, electrical=.15)
    res.signature = [gen.describe(p), label(p)]


def smooth(rng, fs, b, T):
    """A field uniform along the wire and its separation, gaussian with a duration the cells resolve."""
    import sympy as sp
    t = sp.Symbol("t")
    s0 = T*rng.uniform(.25, .45)
    t0 = 7.5*s0
    amp = 10**rng.uniform(0, 2)*rng.normal(size=3)
    g = rng.normal(size=(3, 3))/b.length
    g = (g + g.T)/2 if rng.random() < .3 else g
    X = sp.symbols("x y z")
    tan = (b.points[1] - b.points[0])/np.linalg.norm(b.points[1] - b.points[0])
    wave = sp.exp(-(t - t0)**2/(2*s0**2))
    # longitudinal component varying across the line, transverse components uniform along the separation
    nrm = np.cross(tan, rng.normal(size=3))
    nrm /= np.linalg.norm(nrm)
    shape = 1 + sum(float(x)*y for x, y in zip(nrm/b.length*rng.uniform(1, 4), X))
    e = [(float(tan[k])*shape*float(amp[0]) + float(amp[1]*nrm[k]))*wave for k in range(3)]
    fn = sp.lambdify((*X, t, sp.Symbol("v")), e, "numpy")
    d = fs.distances[b.name]
    across = rng.normal(size=(d.shape[0], 1))*.1*b.length*nrm
    fs.distances[b.name] = across[:, None, :]*np.ones((1, d.shape[1], 1))
    fs.t0, fs.s0 = t0, s0
    fs.fn, fs.sym = (lambda x, y, z, t_, v: fn(x, y, z, t_, v)), (lambda: tuple(e))


def minus(f, g):
    f, g = f or (lambda t: 0.0), g or (lambda t: 0.0)
    return lambda t: f(t) - g(t)


def zero(rng, res, kind):
    """Conductors without separation from the reference are not driven, whatever the field."""
    p = gen.standalone(rng, n=int(rng.integers(1, 4)), max_steps=120) if rng.random() < .5 else \
        gen.single_bundle(rng, depth=int(rng.integers(1, 3)), max_n=3, max_steps=120)
    q = tf.clone(p)
    fs = field(res, rng, q.bundles[0], p.steps*p.dt, region=rng.random() < .3)
    for d in fs.distances.values():
        d[:] = 0
    a, z = Sim(p).run(), Sim(q).run()
    against_reference(res, z, a, 1e-12, "zero")
    res.signature = [gen.describe(p), label(q)]


def opened(rng, res, kind):
    """A slowly varying uniform transverse field on an open line: no current, and the voltage is minus its integral."""
    p = gen.standalone(rng, n=int(rng.integers(1, 4)), lossy=False, sources=False, segments=1, cells=(6, 12), max_steps=100)
    b, ln = p.bundles[0], p.bundles[0].lines[0]
    z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
    ln.zs, ln.zl = np.full(ln.n, z*1e9), np.full(ln.n, z*1e9)
    import sympy as sp
    t = sp.Symbol("t")
    T = p.steps*p.dt
    amp = rng.normal(size=3)
    s0 = float(T*rng.uniform(.03, .08))
    t0 = 7.5*s0
    e = [float(a)*sp.exp(-(t - t0)**2/(2*s0**2)) for a in amp]
    d = np.ones((1, len(b.seglen()) + 1, 1))*rng.normal(size=(ln.n, 1, 3))*.1*b.length
    fn = sp.lambdify((t,), e, "numpy")
    b.fields.append(FieldSpec(lambda x, y, zz, tt, v: fn(tt), lambda: tuple(e), {b.name: d}))
    b.fields[0].style = 1
    V, I = Sim(p).run(chunks_of(rng, p.steps))[b.name]
    times = np.arange(p.steps)*p.dt
    E = np.array([fn(x) for x in times])
    exp = -np.einsum("tx,nkx->tnk", E, d)
    # the field starts from zero at t = 0
    s = np.max(np.abs(exp))
    expect(res, "open", np.max(np.abs(V - exp))/s, 1e-6, "voltage of an open line in a uniform field is not minus the integral along its separation")
    expect(res, "open", np.max(np.abs(I))*z/s, 1e-6, "an open line in a uniform field carries a current")
    res.signature = [gen.describe(p), label(p)]


def manager(rng, res, kind):
    """Fields given to the network manager, after its networks were added: all bundles, or one bundle and a stretch."""
    p = gen.junction_problem(rng, count=2, max_n=2, depth=int(rng.integers(1, 3)), max_steps=120, sources=rng.random() < .5)
    import src.mtl as mtl
    calls = []
    same = rng.random() < .6
    if same:
        b0, b1 = p.bundles
        # the manager hands the same separations to every bundle
        K = len(b0.seglen())
        if len(b1.seglen()) != K or b1.levels[0][0].n != b0.levels[0][0].n:
            b1.points = b1.points[[0, -1]]
            b1.ndiv = [K]
            for ln in b1.lines:
                ln.percell = None
            n = b0.levels[0][0].n
            if b1.levels[0][0].n != n:
                same = False
    if same:
        gen.finish(rng, p, 2.5, None, 120)
        fs = field(res, rng, p.bundles[0], p.steps*p.dt)
        d = fs.distances[p.bundles[0].name]
        for b in p.bundles[1:]:
            fs.distances[b.name] = d
            b.fields.append(fs)
        calls.append(("all", fs, d))
    for b in p.bundles:
        if not same or rng.random() < .5:
            fs = field(res, rng, b, p.steps*p.dt, region=True)
            calls.append((b.name, fs, fs.distances[b.name]))
    ref, _ = refsim.run(p)
    bare = tf.clone(p)
    for b in bare.bundles:
        b.fields = []
    sim = Sim(bare)
    before = [d.copy() for _, _, d in calls]
    for name, fs, d in calls:
        f = mtl.Field(*fs.sym())
        if name == "all":
            sim.top.add_external_field(f, d)
        else:
            sim.top.add_localized_external_field(name, f, d, [np.array(x) for x in fs.region])
    got = sim.run(chunks_of(rng, p.steps))
    against_reference(res, got, ref, 1e-6, "manager")
    require(res, "manager", all(np.array_equal(x, d) for x, (_, _, d) in zip(before, calls)), "the separations given were modified")
    res.signature = [gen.describe(p), label(p), [c[0] for c in calls]]


def split(rng, res, kind):
    """A longitudinal field over the line equals the field over two stretches of it, the shared node counted in both."""
    p = gen.standalone(rng, n=int(rng.integers(1, 3)), max_steps=120, sources=False) if rng.random() < .5 else \
        gen.single_bundle(rng, depth=int(rng.integers(1, 3)), max_n=2, max_steps=120, sources=False)
    b = p.bundles[0]
    fs = field(res, rng, b, p.steps*p.dt)
    u = b.nodes()
    K = len(u) - 1
    m = int(rng.integers(1, K))
    q = tf.clone(p)
    qb = q.bundles[0]
    d = fs.distances[b.name]
    f1 = FieldSpec(fs.fn, fs.sym, {b.name: d}, (u[0], u[m]))
    f2 = FieldSpec(fs.fn, fs.sym, {b.name: d}, (u[m], u[K]))
    f3 = FieldSpec(lambda *a: tuple(-np.asarray(c) for c in fs.fn(*a)), lambda: tuple(-c for c in fs.sym()), {b.name: d}, (u[m], u[m]))
    qb.fields = [f1, f2, f3]
    a, z = Sim(p).run(chunks_of(rng, p.steps)), Sim(q).run(chunks_of(rng, p.steps))
    against_reference(res, z, a, 1e-7, "split")
    res.signature = [gen.describe(p), label(p), m]


def planewave(rng, res, kind):
    """A plane wave given by its angles travels at the line's highest velocity; its field is across its direction."""
    import src.mtl as mtl
    import sympy as sp
    p = gen.standalone(rng, n=int(rng.integers(1, 4)), cells=(5, 9), max_steps=60, sources=rng.random() < .3)
    b = p.bundles[0]
    ln = b.lines[0]
    T = p.steps*p.dt
    polar, azimuth, turn = float(rng.uniform(.2, np.pi-.2)), float(rng.uniform(-3, 3)), float(rng.uniform(-3, 3))
    A, t0, s0 = float(rng.normal()*10**rng.uniform(0, 2)), T*float(rng.uniform(.2, .5)), T*float(rng.uniform(.06, .15))
    theta = np.array([np.cos(polar), np.sin(polar)*np.cos(azimuth), np.sin(polar)*np.sin(azimuth)])    # where it comes from
    e1 = np.array([np.sin(polar), -np.cos(polar)*np.cos(azimuth), -np.cos(polar)*np.sin(azimuth)])
    e2 = np.array([0, -np.sin(azimuth), np.cos(azimuth)])
    pol = np.sin(turn)*e1 + np.cos(turn)*e2
    K = sum(b.ndiv)
    d = rng.normal(size=(ln.n, 1, 3))*0.05*b.length*np.ones((1, K+1, 1))

    def fn(x, y, z, t, v):
        arg = t + (theta[0]*x + theta[1]*y + theta[2]*z)/v
        wave = A*np.exp(-(arg - t0)**2/(2*s0**2))
        return [q*wave for q in pol]
    from lib.spec import FieldSpec
    b.fields.append(FieldSpec(fn, None, {b.name: d}, None))
    ref, _ = refsim.run(p)
    bare = tf.clone(p)
    bare.bundles[0].fields = []
    sim = Sim(bare)
    sim.top.add_planewave(mtl.PlaneWave(lambda a: A*sp.exp(-(a - t0)**2/(2*s0**2)), polar, azimuth, turn), d)
    got = sim.run(chunks_of(rng, p.steps))
    against_reference(res, got, ref, 1e-6, "planewave")
    res.signature = [gen.describe(p), round(polar, 3), round(azimuth, 3), round(turn, 3)]
