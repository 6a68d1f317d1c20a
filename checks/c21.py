"""C21: localized losses: resistance of every segment and conductance of every node recovered from the records,
totals, steady circuit, losses set between runs, reference simulator."""
import numpy as np

from lib import gen, refsim
from lib import transform as tf
from lib.build import Sim
from lib.compare import against_reference, chunks_of, scales, simulate_and_compare
from lib.core import Inconclusive, expect, require
from lib.spec import default_dt

PROPERTY = "C21"
TECHNIQUE = "runtime monitor: resistance of every segment and conductance of every node recovered from recorded voltages and currents, against the given totals; steady-circuit oracle; reference simulator, also for losses set between runs"
LEVEL_NOTE = "Observes every segment, node and conductor of seeded random lines and bundles; exploration."
RULE = "a case is one line or bundle with its localized losses; non-trivial when currents flow through them; distinct by shape, stretches and values"
ASSUMPTIONS = ["a localized resistance replaces, on its conductor and segments, the line's own resistance (the total is the given one), later calls "
               "replacing earlier ones where they overlap", "stretches given in the direction of the line"]
MUST_OBSERVE = {"oracle:resistance": 30, "oracle:conductance": 30, "oracle:total": 40, "oracle:elsewhere": 30, "oracle:reference": 60,
                "oracle:between runs": 12, "oracle:steady": 8, "oracle:dissipated": 20}


def jobs(tier, rng):
    return gen.jobs_from({"resistance": (32, 280), "conductance": (32, 280), "mixed": (24, 200), "bundle": (24, 200), "network": (14, 120),
                          "between": (20, 160), "steady": (14, 100), "dissipated": (20, 160)}, tier, rng)


def stretch(rng, b):
    """Points anywhere near the line's nodes; equal ones, ends and whole length included."""
    u = b.nodes()
    K = len(u) - 1
    kind = rng.integers(6)
    if kind == 0:
        i = j = int(rng.integers(K+1))
    elif kind == 1:
        i, j = 0, K
    elif kind == 2:
        i = j = int(rng.choice([0, K]))
    elif kind == 3:
        i = int(rng.integers(K))
        j = i + 1
    else:
        i, j = sorted(int(x) for x in rng.integers(0, K+1, 2))
    out = []
    for k in (i, j):
        x = u[k].copy()
        if rng.random() < .4:
            near = [q for q in (k-1, k+1) if 0 <= q <= K]
            x = x + float(rng.uniform(0, .45))*(u[int(rng.choice(near))] - x)
            if b.nearest(x) != k:                  # another part of the line comes close
                x = u[k].copy()
        out.append(x)
    if i == j:
        out[1] = out[0]
    return out[0], out[1], i, j


def covered(b, kind, i, j):
    """Segments (resistance) or nodes (conductance) a stretch between nodes i and j covers, and their lengths."""
    du = b.seglen()
    K = len(du)
    if kind == "r":
        i = min(i, K-1)
        ks = list(range(i, max(j, i+1)))
        return ks, du[ks]
    cell = np.zeros(K+1)
    cell[:-1] += du/2
    cell[1:] += du/2
    ks = list(range(i, j+1))
    return ks, cell[ks]


def recovered(p, b, got):
    """Per-segment resistance and per-node conductance matrices' diagonals, least squares over the records."""
    ln = b.lines[0]
    V, I = got[b.name]
    dt = p.dt
    du = b.seglen()
    K = len(du)
    old = np.concatenate([np.zeros((1,) + I.shape[1:]), I[:-1]])
    vold = np.concatenate([np.zeros((1,) + V.shape[1:]), V[:-1]])
    L = [ln.l*(ln.percell["l"][k] if ln.percell else 1) for k in range(K)]
    C = [ln.c*(ln.percell["c"][k] if ln.percell else 1) for k in range(K+1)]
    return V, I, old, vold, du, L, C


def offdiag(m):
    return m - np.diag(np.diag(m))


def check_resistance(res, p, got, placed):
    """placed: list of (conductor, segments, lengths, ohms), not overlapping."""
    b = p.bundles[0]
    ln = b.lines[0]
    V, I, old, vold, du, L, C = recovered(p, b, got)
    scale = np.max(np.abs(V))
    for c in range(ln.n):
        expected = np.array([ln.r[c, c]*du[k] for k in range(len(du))])
        for cond, ks, lens, ohms in placed:
            if cond == c:
                expected[ks] = ohms*lens/np.sum(lens)
        found = np.zeros(len(du))
        for k in range(len(du)):
            E = -(V[:, c, k+1] - V[:, c, k]) - du[k]*(L[k][c] @ (I[:, :, k] - old[:, :, k]).T/p.dt) \
                - du[k]*(offdiag(ln.r)[c] @ (I[:, :, k] + old[:, :, k]).T/2)
            avg = (I[:, c, k] + old[:, c, k])/2
            found[k] = E @ avg/(avg @ avg)
            inside = any(cond == c and k in ks for cond, ks, _, _ in placed)
            expect(res, "resistance" if inside else "elsewhere", np.max(np.abs(E - expected[k]*avg))/scale, 1e-6,
                   f"segment {k} of {len(du)}, conductor {c}: recovered {found[k]:.6g} ohm, expected {expected[k]:.6g}; losses {placed}")
        for cond, ks, lens, ohms in placed:
            if cond == c:
                I2 = np.max(np.abs(I[:, c, ks]))
                expect(res, "total", abs(np.sum(found[ks]) - ohms)/ohms, max(1e-5, 1e-5*scale/(I2*ohms)),
                       f"conductor {c}, segments {ks}: resistances sum to {np.sum(found[ks]):.8g}, given {ohms:.8g}")
    res.count("segments recovered", len(du)*ln.n)


def check_conductance(res, p, got, placed):
    b = p.bundles[0]
    ln = b.lines[0]
    V, I, old, vold, du, L, C = recovered(p, b, got)
    K = len(du)
    cell = np.zeros(K+1)
    cell[:-1] += du/2
    cell[1:] += du/2
    t = np.arange(p.steps)*p.dt
    scale = np.max(np.abs(I))
    for c in range(ln.n):
        expected = np.array([ln.g[c, c]*cell[k] for k in range(K+1)])
        for cond, ks, lens, S in placed:
            if cond == c:
                expected[ks] = S*lens/np.sum(lens)
        found = np.zeros(K+1)
        for k in range(K+1):
            # currents at the old half step: into the node from the left, out to the right
            if k == 0:
                f = ln.sources.get((c, "S"))
                vs = np.array([(f(x) + f(x - p.dt))/2 if f else 0.0 for x in t])
                into = (vs - (V[:, c, 0] + vold[:, c, 0])/2)/ln.zs[c]
                out = old[:, c, 0]
            elif k == K:
                f = ln.sources.get((c, "L"))
                vs = np.array([(f(x) + f(x - p.dt))/2 if f else 0.0 for x in t])
                into = old[:, c, K-1]
                out = -(vs - (V[:, c, K] + vold[:, c, K])/2)/ln.zl[c]
            else:
                into, out = old[:, c, k-1], old[:, c, k]
            J = into - out - cell[k]*(C[k][c] @ (V[:, :, k] - vold[:, :, k]).T/p.dt) - cell[k]*(offdiag(ln.g)[c] @ (V[:, :, k] + vold[:, :, k]).T/2)
            avg = (V[:, c, k] + vold[:, c, k])/2
            found[k] = J @ avg/(avg @ avg) if avg @ avg > 0 else expected[k]
            inside = any(cond == c and k in ks for cond, ks, _, _ in placed)
            s = scale if k not in (0, K) else max(scale, np.max(np.abs(into)), np.max(np.abs(out)))
            expect(res, "conductance" if inside else "elsewhere", np.max(np.abs(J - expected[k]*avg))/s, 1e-6,
                   f"node {k} of {K}, conductor {c}: recovered {found[k]:.6g} S, expected {expected[k]:.6g}; losses {placed}")
        for cond, ks, lens, S in placed:
            if cond == c:
                v = np.max(np.abs(V[:, c, ks]))
                expect(res, "total", abs(np.sum(found[ks]) - S)/S, max(1e-5, 1e-4*scale/(v*S)),
                       f"conductor {c}, nodes {ks}: conductances sum to {np.sum(found[ks]):.8g}, given {S:.8g}")
    res.count("nodes recovered", (K+1)*ln.n)


def place(rng, b, kind, count, n, z):
    placed, used = [], set()
    for _ in range(count):
        s, e, i, j = stretch(rng, b)
        c = int(rng.integers(n))
        ks, lens = covered(b, kind, i, j)
        if used & {(c, k) for k in ks}:
            continue
        used |= {(c, k) for k in ks}
        val = float((z if kind == "r" else 1/z)*10**rng.uniform(-1, .7))
        placed.append((c, ks, lens, val))
        (b.rloc if kind == "r" else b.gloc).append((s, e, c, val))
    return placed


def run_job(job, res):
    rng = gen.rng_of(job)
    kind = job["kind"]
    if kind in ("between", "steady", "dissipated"):
        return {"between": between, "steady": steady, "dissipated": dissipated}[kind](rng, res)
    if kind in ("resistance", "conductance"):
        p = gen.standalone(rng, max_steps=160)
        b, ln = p.bundles[0], p.bundles[0].lines[0]
        z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
        for arr in (ln.zs, ln.zl):
            arr[arr == 0] = z
        for c in range(ln.n):
            ln.sources.setdefault((c, str(rng.choice(["S", "L"]))), gen.waveform(rng, p.steps*p.dt))
        placed = place(rng, b, kind[0] if kind == "resistance" else "g", int(rng.integers(1, 5)), ln.n, z)
        got = run_api(rng, p) if rng.random() < .5 else Sim(p).run(chunks_of(rng, p.steps))
        (check_resistance if kind == "resistance" else check_conductance)(res, p, got, placed)
        ref, _ = refsim.run(p)
        against_reference(res, got, ref, 1e-7)
        res.signature = [gen.describe(p), [[c, ks[0], ks[-1]] for c, ks, _, _ in placed]]
        res.sample = {"placed": [[c, ks, v] for c, ks, _, v in placed]}
        return
    if kind == "mixed":
        p = gen.standalone(rng, per_cell=rng.random() < .2, rloc=int(rng.integers(1, 4)), gloc=int(rng.integers(1, 4)), connectors=int(rng.integers(0, 3)), max_steps=200)
    elif kind == "bundle":
        p = gen.single_bundle(rng, depth=int(rng.integers(1, 4)), max_n=3, rloc=int(rng.integers(1, 5)), gloc=int(rng.integers(1, 5)),
                              transfers=int(rng.integers(0, 2)), connectors=1, max_steps=200)
    else:
        p = gen.junction_problem(rng, max_n=2, depth=int(rng.integers(1, 3)), max_steps=200)
        for b in p.bundles:
            z = np.sqrt(b.lines[0].l[0, 0]/b.lines[0].c[0, 0])
            place(rng, b, "r", int(rng.integers(0, 3)), b.n, z)
            place(rng, b, "g", int(rng.integers(1, 4)), b.n, z)
    sim, got, ref = simulate_and_compare(res, p, rng, tol=1e-7)
    res.signature = gen.describe(p)


def run_api(rng, p):
    """The same losses through the other entry points (at a point, plain coordinates along z, before or after probes)."""
    b = p.bundles[0]
    bare = tf.clone(p)
    bare.bundles[0].rloc, bare.bundles[0].gloc = [], []
    sim = Sim(bare)
    obj = sim.bundles[b.name]
    along_z = np.allclose(b.points[:, :2], 0) and np.allclose(b.points[0], 0)

    def pos(x):
        return float(x[2]) if along_z and rng.random() < .7 else x
    for s, e, c, R in b.rloc:
        if s is e:
            obj.set_resistance_at_point(pos(s), c, R)
        else:
            obj.set_resistance_in_region(pos(s), pos(e), c, R)
    for s, e, c, G in b.gloc:
        if s is e:
            obj.add_conductance_at_point(pos(s), c, G)
        else:
            obj.add_conductance_in_region(pos(s), pos(e), c, G)
    return sim.run(chunks_of(rng, p.steps))


def between(rng, res):
    """Losses set or changed between two runs act from the second on."""
    line = rng.random() < .5
    p = gen.standalone(rng, rloc=int(rng.integers(0, 2)), connectors=int(rng.integers(0, 2)), max_steps=160) if line else \
        gen.single_bundle(rng, depth=int(rng.integers(1, 3)), rloc=1, connectors=1, max_steps=160)
    stages = [p]
    for _ in range(int(rng.integers(1, 3))):
        q = tf.clone(stages[-1])
        b = q.bundles[0]
        z = np.sqrt(b.lines[0].l[0, 0]/b.lines[0].c[0, 0])
        for _ in range(int(rng.integers(1, 3))):
            s, e, i, j = stretch(rng, b)
            if rng.random() < .5:
                b.rloc.append((s, e, int(rng.integers(b.n)), float(z*10**rng.uniform(-1, 1))))
            else:
                b.gloc.append((s, e, int(rng.integers(b.n)), float(10**rng.uniform(-1, 1)/z)))
        stages.append(q)
    total = p.steps
    cuts = sorted(set(int(x) for x in rng.integers(4, total, len(stages)-1)))
    edges = [0] + cuts + [total]
    stages = stages[:len(edges)-1]
    for q, m in zip(stages, np.diff(edges)):
        q.steps = int(m)
    ref = refsim.run_staged(stages)
    sim = Sim(stages[0])
    obj = sim.bundles[p.bundles[0].name]
    parts = []
    from checks.c13 import advance, join
    done_r, done_g = list(stages[0].bundles[0].rloc), list(stages[0].bundles[0].gloc)
    for q in stages:
        b = q.bundles[0]
        for s, e, c, x in b.rloc[len(done_r):]:
            obj.set_resistance_in_region(s, e, c, x)
        for s, e, c, x in b.gloc[len(done_g):]:
            obj.add_conductance_in_region(s, e, c, x)
        done_r, done_g = list(b.rloc), list(b.gloc)
        parts.append(advance(sim, q, q.steps))
    against_reference(res, join(parts), ref, 1e-7, "between runs")
    res.signature = [gen.describe(p), edges, [[len(q.bundles[0].rloc), len(q.bundles[0].gloc)] for q in stages]]


def steady(rng, res):
    """Constant excitation: the resistive ladder with the given totals in their places."""
    p = gen.standalone(rng, n=int(rng.integers(1, 3)), lossy=False, cells=(6, 12), max_steps=100)
    b, ln = p.bundles[0], p.bundles[0].lines[0]
    n = ln.n
    z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
    ln.zs, ln.zl = z*rng.uniform(.5, 2, n), z*rng.uniform(.5, 2, n)
    pr = place(rng, b, "r", int(rng.integers(1, 4)), n, z)
    pg = place(rng, b, "g", int(rng.integers(1, 4)), n, z)
    T = b.length/gen.vmin(ln)
    A = {}
    for c in range(n):
        for s in "SL":
            A[(c, s)] = float(rng.normal())*10
            ln.sources[(c, s)] = gen.ramp(A[(c, s)], 3*T)
    p.dt = .9*default_dt(p)
    p.steps = max(int(15*T/p.dt), 200)
    sim, last = Sim(p), None
    for _ in range(12):
        V, I = sim.run()[b.name]
        half = p.steps//2
        V, I = V[-half:].mean(axis=0), I[-half:].mean(axis=0)
        if last is not None and np.max(np.abs(V - last)) < 1e-4*max(abs(x) for x in A.values()):
            break
        last = V
    else:
        raise Inconclusive("not settled")
    K = len(b.seglen())
    for c in range(n):
        R, G = np.zeros(K), np.zeros(K+1)
        for cond, ks, lens, x in pr:
            if cond == c:
                R[ks] = x*lens/np.sum(lens)
        for cond, ks, lens, x in pg:
            if cond == c:
                G[ks] = x*lens/np.sum(lens)
        # unknowns: node voltages and segment currents
        M, r = np.zeros((2*K+1, 2*K+1)), np.zeros(2*K+1)
        for k in range(K+1):
            M[k, k] = -G[k]
            if k > 0:
                M[k, K+k] = 1
            else:
                M[k, k] -= 1/ln.zs[c]
                r[k] = -A[(c, "S")]/ln.zs[c]
            if k < K:
                M[k, K+1+k] = -1
            else:
                M[k, k] -= 1/ln.zl[c]
                r[k] = -A[(c, "L")]/ln.zl[c]
        for k in range(K):
            M[K+1+k, k], M[K+1+k, k+1], M[K+1+k, K+1+k] = 1, -1, -R[k]
        x = np.linalg.solve(M, r)
        vs = max(abs(A[(c, "S")]), abs(A[(c, "L")]))
        expect(res, "steady", np.max(np.abs(V[c] - x[:K+1]))/vs, 1e-2, f"conductor {c}: steady voltages {V[c]}, circuit {x[:K+1]}")
        expect(res, "steady", np.max(np.abs(I[c] - x[K+1:]))*z/vs, 1e-2, f"conductor {c}: steady currents {I[c]}, circuit {x[K+1:]}")
    res.signature = gen.describe(p)


def dissipated(rng, res):
    """A loss given in pieces over parts of equal cells is the loss over the whole; the order does not matter."""
    p = gen.standalone(rng, uniform=True, lossy=False, max_steps=160) if rng.random() < .5 else \
        gen.single_bundle(rng, uniform=True, lossy=False, max_steps=160)
    b = p.bundles[0]
    u = b.nodes()
    K = len(u) - 1
    z = np.sqrt(b.lines[0].l[0, 0]/b.lines[0].c[0, 0])
    c = int(rng.integers(b.n))
    i, j = sorted(int(x) for x in rng.permutation(K+1)[:2])
    q = tf.clone(p)
    R = float(z*10**rng.uniform(-1, .7))
    b.rloc.append((u[i], u[j], c, R))
    cuts = sorted({i, j, *[int(x) for x in rng.integers(i, j+1, 2)]})
    pieces = [(u[a], u[e], c, R*(e-a)/(j-i)) for a, e in zip(cuts[:-1], cuts[1:])]
    q.bundles[0].rloc += [pieces[k] for k in rng.permutation(len(pieces))]
    # interior nodes only: all those cells are equal
    i, j = sorted(int(x) for x in 1 + rng.permutation(K-1)[:2])
    G = float(10**rng.uniform(-1, .7)/z)
    b.gloc.append((u[i], u[j], c, G))
    nodes = list(range(i, j+1))
    m = int(rng.integers(1, len(nodes)))
    two = [(u[nodes[0]], u[nodes[m-1]], c, G*m/len(nodes)), (u[nodes[m]], u[nodes[-1]], c, G*(len(nodes)-m)/len(nodes))]
    q.bundles[0].gloc += [two[k] for k in rng.permutation(2)]
    a, e = Sim(p).run(chunks_of(rng, p.steps)), Sim(q).run(chunks_of(rng, p.steps))
    against_reference(res, e, a, 1e-8, "dissipated")
    res.signature = [gen.describe(p), cuts]
