"""Laplace-domain physics of a Problem: continuous telegrapher equations solved with matrix
exponentials, Kirchhoff's laws at the terminations, no time stepping at all.  Independent of both
the repository and the reference simulator's scheme; agrees with them up to discretisation error."""
import numpy as np
from scipy.linalg import expm

from lib import refsim


def transform(samples, s, dt, offset=1.0):
    """dt * sum_k x_k exp(-s (k + offset) dt) along the first axis."""
    k = np.arange(samples.shape[0])
    w = np.exp(-s*(k + offset)*dt)*dt
    return np.tensordot(w, samples, axes=(0, 0))


class Drive:
    """Transforms of sources, as averaged over each step and seen one step later."""

    def __init__(self, s, dt, steps):
        self.dt = dt
        self.t = np.arange(steps)*dt
        self.w = np.exp(-s*(np.arange(steps) + 1)*dt)*dt
        self.share = (1 + np.exp(-s*dt))/2

    def __call__(self, f):
        """Terminal sources: averaged between two steps, like the voltages they drive."""
        if f is None:
            return 0.0
        return np.dot(self.w, [(f(t) + f(t - self.dt))/2 for t in self.t])/self.share

    def field(self, f):
        """Distributed sources: averaged around a step, driving the change of the current."""
        return np.dot(self.w, [(f(t + self.dt/2) + f(t - self.dt/2))/2 for t in self.t])


def solve(problem, s):
    """{bundle: (V[n, K+1] at nodes, I[n, K] at segment centres)} at complex frequency s."""
    dt, steps = problem.dt, problem.steps
    drive = Drive(s, dt, steps)
    names = [b.name for b in problem.bundles]
    rbs = {b.name: refsim.RefBundle(b, dt) for b in problem.bundles}

    chains = {}
    size = 0
    for name in names:
        rb = rbs[name]
        n, K = rb.n, rb.K
        Z = rb.R + s*rb.L
        Z = Z.astype(complex)
        for key, (d, e, poles, residues, _) in _terms(rb).items():
            Z[key] += d + s*e + sum(r/(s - p) for p, r in zip(poles, residues))
        Y = rb.G + s*rb.C
        E = np.zeros((n, K), dtype=complex)
        for cond, frac, f in rb.cover:
            E[cond] += frac*drive.field(f)
        eT = np.zeros((n, K+1), dtype=complex)
        if rb.b.fields:
            bare_cover, rb.cover = rb.cover, []
            # half-step sampling of the longitudinal field: average of the two samples around a step
            L = np.array([0.5*(rb.eL(t + dt/2) + rb.eL(t - dt/2)) for t in drive.t])
            T = np.array([rb.eT(t) for t in drive.t])
            rb.cover = bare_cover
            E += np.tensordot(drive.w, L, axes=(0, 0))
            eT += np.tensordot(drive.w, T, axes=(0, 0))
        A = np.eye(2*n, 2*n, dtype=complex)
        psi = np.zeros(2*n, dtype=complex)
        nodeA, nodeP, midA, midP = [A.copy()], [psi.copy()], [], []
        cache = {}
        for k in range(K):
            for half, y, g, et in ((0, Y[k], rb.G[k], eT[:, k]), (1, Y[k+1], rb.G[k+1], eT[:, k+1])):
                M = np.zeros((2*n+1, 2*n+1), dtype=complex)
                M[:n, n:2*n] = -Z[k]
                M[n:2*n, :n] = -y
                M[:n, -1] = E[:, k]
                M[n:2*n, -1] = g @ et
                key = M.tobytes() + bytes(str(rb.du[k]), "ascii")
                if key not in cache:
                    cache[key] = expm(M*rb.du[k]/2)
                X = cache[key]
                A = X[:2*n, :2*n] @ A
                psi = X[:2*n, :2*n] @ psi + X[:2*n, -1]
                if half == 0:
                    midA.append(A.copy())
                    midP.append(psi.copy())
            nodeA.append(A.copy())
            nodeP.append(psi.copy())
        chains[name] = dict(n=n, K=K, off=size, eT=eT, nodeA=nodeA, nodeP=nodeP, midA=midA, midP=midP)
        size += 2*n
    nshort = sum(1 for net in problem.nets for e in net.elements if e[0] == "SS")
    total = size + nshort
    eqs, rhs = [], []

    def row():
        return np.zeros(total, dtype=complex)

    def port(name, cond, side):
        """(row, const) of the total voltage and (row, const) of the current delivered to the end."""
        c = chains[name]
        n, o = c["n"], c["off"]
        rv, ri = row(), row()
        if side == "S":
            rv[o+cond] = 1
            ri[o+n+cond] = -1
            return rv, -c["eT"][cond, 0], ri, 0.0
        A, P = c["nodeA"][-1], c["nodeP"][-1]
        rv[o:o+2*n] = A[cond]
        ri[o:o+2*n] = A[n+cond]
        return rv, P[cond] - c["eT"][cond, -1], ri, P[n+cond]

    if problem.standalone:
        b = problem.bundles[0]
        ln = b.lines[0]
        for side, z in (("S", ln.zs), ("L", ln.zl)):
            for cond in range(ln.n):
                rv, cv, ri, ci = port(b.name, cond, side)
                # v = Vs + Z * (current delivered to the end)
                eqs.append(rv - z[cond]*ri)
                rhs.append(drive(ln.sources.get((cond, side))) - cv + z[cond]*ci)
    ks = size
    for net in problem.nets:
        ports = {}
        for nid, (bname, line, cond, side) in net.nodes.items():
            ports[nid] = port(bname, rbs[bname].b.offset(line)+cond, side)
        kcl = {nid: [p[2].copy(), complex(p[3])] for nid, p in ports.items()}
        grounded = {}

        def inject(nid, y, f=None, other=None):
            rv, cv = ports[nid][:2]
            kcl[nid][0] -= y*rv
            kcl[nid][1] -= y*cv
            kcl[nid][1] += y*drive(f)
            if other is not None:
                kcl[nid][0] += y*ports[other][0]
                kcl[nid][1] += y*ports[other][1]
        for e in net.elements:
            if e[0] == "R":
                inject(e[1], 1/e[2], e[3])
            elif e[0] == "C":
                inject(e[1], s*e[2], e[3])
            elif e[0] == "LCpRs":
                R, L, C = e[2:5]
                inject(e[1], 1/(R + 1/(s*C + 1/(s*L))), e[5])
            elif e[0] == "short":
                grounded[e[1]] = drive(e[2])
            elif e[0] == "RR":
                inject(e[1], 1/e[3], e[4], e[2])
                inject(e[2], 1/e[3], None, e[1])
                kcl[e[2]][1] -= drive(e[4])/e[3]
            elif e[0] == "SS":
                kcl[e[1]][0][ks] += 1
                kcl[e[2]][0][ks] -= 1
                eqs.append(ports[e[1]][0] - ports[e[2]][0])
                rhs.append(ports[e[2]][1] - ports[e[1]][1] + drive(e[3]))
                ks += 1
        for nid in net.nodes:
            if nid in grounded:
                eqs.append(ports[nid][0])
                rhs.append(grounded[nid] - ports[nid][1])
            else:
                eqs.append(kcl[nid][0])
                rhs.append(-kcl[nid][1])
    M, b = np.array(eqs), np.array(rhs)
    scale = np.max(np.abs(M), axis=1)
    x = np.linalg.lstsq(M/scale[:, None], b/scale, rcond=None)[0]
    out = {}
    for name in names:
        c = chains[name]
        n, o = c["n"], c["off"]
        x0 = x[o:o+2*n]
        V = np.array([(A @ x0 + P)[:n] for A, P in zip(c["nodeA"], c["nodeP"])]).T - c["eT"]
        I = np.array([(A @ x0 + P)[n:] for A, P in zip(c["midA"], c["midP"])]).T
        out[name] = (V, I)
    return out


def _terms(rb):
    """The dispersive terms of the bundle, per unit length, keyed (cell, row, column)."""
    return rb.terms


def frequencies(problem, rng, count=3, decay=12.0, electrical=0.22):
    """Complex frequencies with negligible truncation and small cells."""
    T = problem.steps*problem.dt
    sigma = decay/T
    cell = max(np.max(b.seglen())*1.0/min(1/np.sqrt(np.max(np.real(np.linalg.eigvals(l.l @ l.c))))
               for l in b.lines) for b in problem.bundles)
    wmax = electrical/cell
    out = [complex(sigma, 0.0)]
    for _ in range(count-1):
        out.append(complex(sigma, float(rng.uniform(0.1, 1.0))*wmax))
    return out


def compare(res, problem, got, rng, oracle="physics", tol=0.02, count=3, decay=12.0, electrical=0.22,
            per_conductor=False):
    """Recorded histories against the Laplace-domain solution at a few complex frequencies."""
    from lib.core import expect
    for s in frequencies(problem, rng, count, decay, electrical):
        exact = solve(problem, s)
        sv = max(np.max(np.abs(x[0])) for x in exact.values())
        si = max(np.max(np.abs(x[1])) for x in exact.values())
        sv, si = max(sv, 2e-3*si), max(si, 2e-7*sv)      # a mode may have no voltage or no current
        for name, (V, I) in exact.items():
            gv = transform(got[name][0], s, problem.dt, 1.0)
            gi = transform(got[name][1], s, problem.dt, 1.5)
            for what, g, e, sc in (("voltage", gv, V, sv), ("current", gi, I, si)):
                for c in range(e.shape[0]):
                    scale = np.max(np.abs(e[c])) + 1e-9*sc if per_conductor else sc
                    err = np.abs(g[c] - e[c])
                    k = int(np.argmax(err))
                    expect(res, oracle, err[k]/scale, tol,
                           f"{what} of bundle {name}, conductor {c}, place {k}, s={s:.4g}: transform of the record "
                           f"{g[c, k]:.6g}, transmission-line theory {e[c, k]:.6g} (scale {scale:.3g})")
                    res.count("transform values compared", e.shape[1])
