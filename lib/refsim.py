"""Reference simulator of the discrete MTL equations, written from the published scheme
(Paul, Analysis of Multiconductor Transmission Lines) and the documented conventions, sharing no
code with the repository.  It is the executable model the recorded histories are compared with."""
import numpy as np


def _nearest(u, position):
    return int(np.argmin(np.linalg.norm(u - np.asarray(position).ravel(), axis=1)))


def _arc(point, u):
    best, s = None, 0.0
    point = np.asarray(point).ravel()
    for a, b in zip(u[:-1], u[1:]):
        w = b - a
        x = min(max(np.dot(point - a, w)/np.dot(w, w), 0.0), 1.0)
        d = np.linalg.norm(a + x*w - point)
        if best is None or d < best[0] - 1e-12:
            best = (d, s + x*np.linalg.norm(w))
        s += np.linalg.norm(w)
    return best[1]


def block_diag(mats):
    n = sum(m.shape[0] for m in mats)
    out = np.zeros((n, n))
    k = 0
    for m in mats:
        out[k:k+m.shape[0], k:k+m.shape[0]] = m
        k += m.shape[0]
    return out


GL = tuple(q/2 + h for q, h in zip(np.polynomial.legendre.leggauss(16), (0.5, 0.0)))


def sample(fn, at, t, v):
    """Field vectors (..., 3) at positions (..., 3)."""
    e = fn(at[..., 0], at[..., 1], at[..., 2], t, v)
    return np.stack([np.broadcast_to(c, at.shape[:-1]) for c in e], axis=-1)


def line_integral(fn, u, distance, t, v):
    """Integrals of the field along the straight paths u[k] -> u[k] + distance[k] (Gauss-Legendre)."""
    x, w = GL
    at = u[:, None, :] + x[None, :, None]*distance[:, None, :]
    return np.einsum("q,kqx,kx->k", w, sample(fn, at, t, v[:, None]), distance)


class RefBundle:
    def __init__(self, b, dt):
        self.b, self.dt = b, dt
        self.u = b.nodes()
        self.du = b.seglen()
        K, n = len(self.du), b.n
        self.K, self.n = K, n
        ones = {"l": np.ones(K), "c": np.ones(K+1), "r": np.ones(K), "g": np.ones(K+1)}
        fac = [line.percell or ones for line in b.lines]

        def stack(key, count):
            return np.array([block_diag([getattr(l, key)*f[key][k] for l, f in zip(b.lines, fac)])
                             for k in range(count)])
        self.L, self.C, self.R, self.G = stack("l", K), stack("c", K+1), stack("r", K), stack("g", K+1)
        for start, end, cond, ohms in b.rloc:
            i, j = _nearest(self.u, start), _nearest(self.u, end)
            i = min(i, K-1)
            j = max(j, i+1)
            self.R[i:j, cond, cond] = ohms/np.sum(self.du[i:j])
        cell = np.zeros(K+1)
        cell[:-1] += self.du/2
        cell[1:] += self.du/2
        self.cell = cell
        for start, end, cond, siemens in b.gloc:
            i, j = _nearest(self.u, start), _nearest(self.u, end)
            self.G[i:j+1, cond, cond] = siemens/np.sum(cell[i:j+1])

        # dispersive terms: dict (k, i, j) -> [d, e, poles, residues], all per unit length
        terms = {}
        for line in b.lines:
            o = b.offset(line)
            for cond, position, model in line.connectors:
                k = min(_nearest(self.u, position), K-1)
                m = model.scaled(1/self.du[k])
                terms[(k, o+cond, o+cond)] = [m.cte, m.prop, list(m.poles), list(m.residues), [(-1, q) for q in range(len(m.poles))]]
        widths = [sum(l.n for l in level) for level in b.levels]
        for which, tr in enumerate(b.transfers):
            m = tr.model.scaled(-1/(tr.factor or 1))
            if m.cte == 0 and m.prop == 0 and not m.poles:
                continue
            tags = [(which, q) for q in range(len(m.poles))]
            outs = [sum(widths[:tr.out_level]) + c for c in tr.out_cond]
            ins = [sum(widths[:tr.in_level]) + c for c in tr.in_cond]
            cells = {None: range(K), "initial": [0], "end": [K-1]}[tr.side]
            for k in cells:
                for a in outs:
                    for c in ins:
                        pairs = []
                        if tr.direction in ("in", "both"):
                            pairs.append((k, c, a))
                        if tr.direction in ("out", "both"):
                            pairs.append((k, a, c))
                        for key in pairs:
                            old = terms.get(key)
                            if old is None or tr.side is not None:
                                terms[key] = [m.cte, m.prop, list(m.poles), list(m.residues), list(tags)]
                            else:
                                terms[key] = [old[0]+m.cte, old[1]+m.prop, old[2]+list(m.poles),
                                              old[3]+list(m.residues), old[4]+tags]
        self.terms = terms
        D, E = np.zeros((K, n, n)), np.zeros((K, n, n))
        Q1, Q2 = np.zeros((K, n, n)), np.zeros((K, n, n))
        mem = []
        self.mem_keys = []                     # which pole of which part a memory belongs to
        for (k, i, j), (d, e, poles, residues, tags) in terms.items():
            D[k, i, j], E[k, i, j] = d, e
            for p, r, tag in zip(poles, residues, tags):
                x = np.exp(p*dt)
                # exact convolution of r*exp(p t) with a current varying linearly within each step
                q1 = -(r/p)*(1 - (x - 1)/(p*dt))
                q2 = (r/p)*(1/(p*dt) + x*(1 - 1/(p*dt)))
                Q1[k, i, j] += np.real(q1)
                Q2[k, i, j] += np.real(q2)
                mem.append((k, i, j, q1, q2, x))
                self.mem_keys.append((k, i, j) + tag)
        self.mk = np.array([m[0] for m in mem], dtype=int)
        self.mi = np.array([m[1] for m in mem], dtype=int)
        self.mj = np.array([m[2] for m in mem], dtype=int)
        self.mq1 = np.array([m[3] for m in mem], dtype=complex)
        self.mq2 = np.array([m[4] for m in mem], dtype=complex)
        self.mx = np.array([m[5] for m in mem], dtype=complex)
        self.phi = np.zeros(len(mem), dtype=complex)
        du = self.du[:, None, None]
        self.inv_i = np.linalg.inv(du*(self.L/dt + D/2 + E/dt + self.R/2 + Q1))
        self.rhs_i = du*(self.L/dt - D/2 + E/dt - self.R/2 - Q2)
        w = np.empty(K+1)
        w[1:-1] = (self.du[1:] + self.du[:-1])/2
        w[0], w[-1] = self.du[0], self.du[-1]
        w = w[:, None, None]
        self.inv_v = np.linalg.inv(w*(self.C/dt + self.G/2))
        self.rhs_v = w*(self.C/dt - self.G/2)

        self.v = np.zeros((n, K+1))
        self.i = np.zeros((n, K))

        # distributed sources
        self.cover = []
        edges = np.concatenate([[0], np.cumsum(self.du)])
        for start, end, cond, f in b.local:
            a, z = _arc(start, self.u), _arc(end, self.u)
            frac = np.clip(np.minimum(z, edges[1:]) - np.maximum(a, edges[:-1]), 0, None)/self.du
            frac[frac < 1e-10] = 0.0
            self.cover.append((cond, frac, f))
        self.velocity = None
        if b.fields:
            lines = b.levels[0]
            self.vmax = np.array([1/np.sqrt(np.min(np.real(np.linalg.eigvals(self.L[k] @ self.C[k+1]))))
                                  for k in range(K)])

    def eL(self, t):
        out = np.zeros((self.n, self.K))
        for cond, frac, f in self.cover:
            out[cond] += frac*f(t)
        for fs in self.b.fields:
            dist = fs.distances[self.b.name]
            lo, hi = 0, self.K
            if fs.region is not None:
                lo, hi = _nearest(self.u, fs.region[0]), _nearest(self.u, fs.region[1])
                if hi <= lo:
                    continue
            cut = slice(lo, hi)
            tangent = np.diff(self.u, axis=0)[cut]/self.du[cut, None]
            mid = (self.u[1:] + self.u[:-1])[cut]/2
            base = sample(fs.fn, mid, t, self.vmax[cut])
            for c in range(dist.shape[0]):
                out[c, cut] += np.sum((sample(fs.fn, mid + dist[c, cut], t, self.vmax[cut]) - base)*tangent, axis=1)
        return out

    def eT(self, t):
        out = np.zeros((self.n, self.K+1))
        for fs in self.b.fields:
            dist = fs.distances[self.b.name]
            lo, hi = 0, self.K
            if fs.region is not None:
                lo, hi = _nearest(self.u, fs.region[0]), _nearest(self.u, fs.region[1])
            cut = slice(lo, hi+1)
            v = self.vmax[np.minimum(np.arange(lo, hi+1), self.K-1)]
            for c in range(dist.shape[0]):
                out[c, cut] += line_integral(fs.fn, self.u[cut], dist[c, cut], t, v)
        return out

    def sources(self, t):
        dt = self.dt
        if self.cover or self.b.fields:
            self.eLsum = self.eL(t + dt/2) + self.eL(t - dt/2)
        else:
            self.eLsum = 0.0
        if self.b.fields:
            self.eTn, self.eTp = self.eT(t), self.eT(t - dt)
        else:
            self.eTn = self.eTp = np.zeros((self.n, self.K+1))

    def advance_interior(self):
        v = self.v
        new = v.copy()
        for k in range(1, self.K):
            new[:, k] = self.inv_v[k] @ (self.rhs_v[k] @ v[:, k] - (self.i[:, k] - self.i[:, k-1])) \
                - (self.eTn[:, k] - self.eTp[:, k])
        self.v_old, self.v = v, new

    def advance_current(self):
        emf = np.diff(self.v, axis=1) + np.diff(self.eTn, axis=1) - self.du/2*self.eLsum
        mem = np.zeros((self.K, self.n), dtype=complex)
        np.add.at(mem, (self.mk, self.mi), self.mx*self.phi)
        emf = emf + (self.du[:, None]*mem.real).T
        old = self.i
        rhs = np.einsum("kij,jk->ki", self.rhs_i, old) - emf.T
        self.i = np.einsum("kij,kj->ik", self.inv_i, rhs)
        if len(self.phi):
            self.phi = self.mq1*self.i[self.mj, self.mk] + self.mq2*old[self.mj, self.mk] + self.mx*self.phi


class RefThevenin:
    """v = Vs - Z i at one end, averaged over each step."""

    def __init__(self, rb, side, z, sources):
        self.rb, self.sources = rb, sources
        k = {"S": 0, "L": -1}[side]
        self.k, self.sign = k, (-1.0 if side == "S" else 1.0)
        self.z = np.diag(z)
        w = rb.du[k]
        n = rb.n
        self.w = w
        self.inv = np.linalg.inv(w*self.z @ rb.C[k]/rb.dt + w*self.z @ rb.G[k]/2 + np.eye(n))
        self.rhs = w*self.z @ rb.C[k]/rb.dt - w*self.z @ rb.G[k]/2 - np.eye(n)

    def vs(self, t):
        out = np.zeros(self.rb.n)
        for c, f in self.sources.items():
            out[c] = f(t)
        return out

    def advance(self, t):
        rb, k = self.rb, self.k
        rhs = self.rhs @ rb.v_old[:, k] + self.sign*2*self.z @ rb.i[:, k] + self.vs(t) + self.vs(t - rb.dt) \
            - self.w/rb.dt*self.z @ rb.C[k] @ (rb.eTn[:, k] - rb.eTp[:, k])
        rb.v[:, k] = self.inv @ rhs


class RefNet:
    """Nodal analysis of the lumped elements joined to the ends of lines."""

    def __init__(self, problem, net, rbs):
        self.dt = problem.dt
        ids = sorted(net.nodes)
        self.ids = ids
        self.idx = {n: a for a, n in enumerate(ids)}
        N = len(ids)
        self.N = N
        self.where = []
        CC, GG = np.zeros((N, N)), np.zeros((N, N))
        for nid in ids:
            bname, line, cond, side = net.nodes[nid]
            rb = rbs[bname]
            self.where.append((rb, rb.b.offset(line)+cond, {"S": 0, "L": -1}[side], line))
        for a, (ra, ca, ka, la) in enumerate(self.where):
            for b, (rb, cb, kb, lb) in enumerate(self.where):
                if ra is rb and ka == kb and la is lb:
                    CC[a, b] = ra.du[ka]*ra.C[ka][ca, cb]
                    GG[a, b] = ra.du[ka]*ra.G[ka][ca, cb]
        self.CC, self.GG = CC, GG
        self.elements = []
        for el in net.elements:
            el = list(el)
            self.elements.append(el)
        self.shorts = [(self.idx[e[1]], self.idx[e[2]]) for e in net.elements if e[0] == "SS"]
        self.v = np.zeros(N)
        self.v_prev = np.zeros(N)
        self.lc = [np.zeros(2) for e in self.elements if e[0] == "LCpRs"]

    def advance(self, t):
        dt, N = self.dt, self.N
        A = self.CC/dt + self.GG/2
        eT = np.array([rb.eTn[c, k] - rb.eTp[c, k] for rb, c, k, _ in self.where])
        inj = np.array([(1.0 if k == 0 else -1.0)*rb.i[c, k] for rb, c, k, _ in self.where])
        rhs = (self.CC/dt - self.GG/2) @ self.v - 2*inj - self.CC @ eT/dt
        v, vp = self.v, self.v_prev
        A = A.copy()
        q = 0
        pend = []
        short_pairs, short_drive = [], []
        for e in self.elements:
            kind = e[0]
            f = e[-1]
            s0 = f(t) if f is not None else 0.0
            s1 = f(t - dt) if f is not None else 0.0
            s2 = f(t - 2*dt) if f is not None and kind == "C" else 0.0
            if kind == "R":
                a = self.idx[e[1]]
                A[a, a] += 1/e[2]
                rhs[a] += (-v[a] + s0 + s1)/e[2]
            elif kind == "C":
                a = self.idx[e[1]]
                A[a, a] += e[2]/dt
                rhs[a] += e[2]/dt*v[a] + e[2]*(s0 - s1)/dt - e[2]*(v[a] - vp[a])/dt + e[2]*(s1 - s2)/dt
            elif kind == "LCpRs":
                a = self.idx[e[1]]
                R, L, C = e[2:5]
                X = self.lc[q]
                # backward Euler:  (1 - dt M) X' = X + dt (B v' + S s0)
                M = np.array([[-1/(R*C), -1/C], [1/L, 0.0]])
                P = np.linalg.inv(np.eye(2) - dt*M)
                base = P @ (X + dt*np.array([-s0/(R*C), 0.0]))
                slope = P @ (dt*np.array([1/(R*C), 0.0]))
                # current into the node (X0 - (v - s))/R now and before
                A[a, a] += (1 - slope[0])/R
                rhs[a] += (base[0] + s0)/R + (X[0] - v[a] + s1)/R
                pend.append((q, a, base, slope))
                q += 1
            elif kind == "short":
                a = self.idx[e[1]]
                A[a, a] += 1e10
                rhs[a] += 1e10*(-v[a] + s0 + s1)
            elif kind == "RR":
                a, b = self.idx[e[1]], self.idx[e[2]]
                A[a, a] += 1/e[3]
                A[b, b] += 1/e[3]
                A[a, b] -= 1/e[3]
                A[b, a] -= 1/e[3]
                cur = (-v[a] + v[b] + s0 + s1)/e[3]
                rhs[a] += cur
                rhs[b] -= cur
            elif kind == "SS":
                a, b = self.idx[e[1]], self.idx[e[2]]
                short_pairs.append((a, b))
                short_drive.append(s0 + s1 - v[a] + v[b])
        if short_pairs:
            m = len(short_pairs)
            B = np.zeros((N, m))
            for j, (a, b) in enumerate(short_pairs):
                B[a, j], B[b, j] = 1.0, -1.0
            big = np.block([[A, B], [B.T, np.zeros((m, m))]])
            new = np.linalg.lstsq(big, np.concatenate([rhs, short_drive]), rcond=None)[0][:N] \
                if np.linalg.matrix_rank(B) < m else np.linalg.solve(big, np.concatenate([rhs, short_drive]))[:N]
        else:
            new = np.linalg.solve(A, rhs)
        for q, a, base, slope in pend:
            self.lc[q] = base + slope*new[a]
        self.v_prev, self.v = self.v, new
        for (rb, c, k, _), x in zip(self.where, new):
            rb.v[c, k] = x


def run(problem, initial=None, track_networks=False):
    """Histories {bundle: (V[steps, n, K+1], I[steps, n, K])} and the times of the voltages."""
    dt = problem.dt
    rbs = {b.name: RefBundle(b, dt) for b in problem.bundles}
    ends = []
    if problem.standalone:
        b = problem.bundles[0]
        line = b.lines[0]
        rb = rbs[b.name]
        ends.append(RefThevenin(rb, "S", line.zs, {c: f for (c, s), f in line.sources.items() if s == "S"}))
        ends.append(RefThevenin(rb, "L", line.zl, {c: f for (c, s), f in line.sources.items() if s == "L"}))
    nets = [RefNet(problem, net, rbs) for net in problem.nets]
    if initial:
        for name, (v, i) in initial.items():
            rbs[name].v, rbs[name].i = v.copy(), i.copy()
    t = 0.0
    times = []
    hist = {b.name: ([], []) for b in problem.bundles}
    for _ in range(problem.steps):
        for rb in rbs.values():
            rb.sources(t)
            rb.advance_interior()
        for e in ends:
            e.advance(t)
        for net in nets:
            net.advance(t)
        for rb in rbs.values():
            rb.advance_current()
        t += dt
        times.append(t)
        for name, rb in rbs.items():
            hist[name][0].append(rb.v.copy())
            hist[name][1].append(rb.i.copy())
    return {n: (np.array(v), np.array(i)) for n, (v, i) in hist.items()}, np.array(times)


def run_staged(stages):
    """Consecutive runs of one structure that is completed in between (each problem keeps the parts of the one
    before, in order, and may add some); the state is carried over."""
    old = None
    t = 0.0
    out = {b.name: ([], []) for b in stages[0].bundles}
    for problem in stages:
        dt = problem.dt
        rbs = {b.name: RefBundle(b, dt) for b in problem.bundles}
        ends = []
        if problem.standalone:
            b = problem.bundles[0]
            line = b.lines[0]
            rb = rbs[b.name]
            ends = [RefThevenin(rb, s, z, {c: f for (c, q), f in line.sources.items() if q == s}) for s, z in (("S", line.zs), ("L", line.zl))]
        nets = [RefNet(problem, net, rbs) for net in problem.nets]
        if old:
            for name, rb in rbs.items():
                before = old[0][name]
                rb.v, rb.i = before.v, before.i
                kept = dict(zip(before.mem_keys, before.phi))
                rb.phi = np.array([kept.get(key, 0.0) for key in rb.mem_keys], dtype=complex)
            for new, before in zip(nets, old[1]):
                new.v, new.v_prev = before.v, before.v_prev
                new.lc[:len(before.lc)] = before.lc
        for _ in range(problem.steps):
            for rb in rbs.values():
                rb.sources(t)
                rb.advance_interior()
            for e in ends:
                e.advance(t)
            for net in nets:
                net.advance(t)
            for rb in rbs.values():
                rb.advance_current()
            t += dt
            for name, rb in rbs.items():
                out[name][0].append(rb.v.copy())
                out[name][1].append(rb.i.copy())
        old = (rbs, nets)
    return {n: (np.array(v), np.array(i)) for n, (v, i) in out.items()}
