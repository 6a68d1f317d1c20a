"""Rewritings of a Problem: source substitution, rigid motion, reversal, relabelling, scaling."""
import copy

import numpy as np

from lib.spec import BundleSpec, FieldSpec, LineSpec, Model, NetSpec, Problem, TransferSpec

WITH_SOURCE = ("R", "C", "LCpRs", "RR", "short", "SS")


def clone(p):
    """Deep copy of the structure; functions are shared."""
    return copy.deepcopy(p)


def count_sources(p):
    box = []
    map_sources(p, lambda k, f: box.append(k) or f, lambda k, fs: box.append(k) or fs)
    return len(box)


def map_sources(p, fn, field=None):
    """A copy of p whose k-th source f becomes fn(k, f) (None removes it); fields become field(k, FieldSpec)."""
    q = clone(p)
    k = [0]

    def nxt(f):
        k[0] += 1
        return fn(k[0]-1, f)
    for b in q.bundles:
        out = []
        for start, end, cond, f in b.local:
            g = nxt(f)
            if g is not None:
                out.append((start, end, cond, g))
        b.local = out
        for ln in b.lines:
            new = {}
            for key, f in ln.sources.items():
                g = nxt(f)
                if g is not None:
                    new[key] = g
            ln.sources = new
    for net in q.nets:
        net.elements = [e[:-1] + (nxt(e[-1]),) if e[0] in WITH_SOURCE and e[-1] is not None else e
                        for e in net.elements]
    for b in q.bundles:
        out = []
        for fs in b.fields:
            k[0] += 1
            g = (field or (lambda j, x: x))(k[0]-1, fs)
            if g is not None:
                out.append(g)
        b.fields = out
    return q


def weighted(f, w):
    return lambda t: w*f(t)


def delayed(f, tau):
    return lambda t: f(t - tau)


def summed(f, g):
    return lambda t: f(t) + g(t)


def field_weighted(fs, w):
    return FieldSpec(lambda x, y, z, t, v: tuple(w*c for c in fs.fn(x, y, z, t, v)),
                     lambda: tuple(w*c for c in fs.sym()), fs.distances, fs.region)


def field_delayed(fs, tau):
    import sympy as sp
    return FieldSpec(lambda x, y, z, t, v: fs.fn(x, y, z, t - tau, v),
                     lambda: tuple(sp.sympify(c).subs(sp.Symbol("t"), sp.Symbol("t") - tau) for c in fs.sym()),
                     fs.distances, fs.region)


def move(p, Q, shift, names=None):
    """Rigid motion of (some of) the bundles, with everything that is placed on them."""
    q = clone(p)

    def m(x):
        return np.asarray(x) @ Q.T + shift
    for b in q.bundles:
        if names is not None and b.name not in names:
            continue
        b.points = m(b.points)
        for ln in b.lines:
            ln.connectors = [(c, m(x), mod) for c, x, mod in ln.connectors]
        for key in ("local", "rloc", "gloc"):
            setattr(b, key, [(m(s), m(e)) + tuple(rest) for s, e, *rest in getattr(b, key)])
    return q


def rotation(rng):
    Q, _ = np.linalg.qr(rng.normal(size=(3, 3)))
    if np.linalg.det(Q) < 0:
        Q[:, 0] = -Q[:, 0]
    return Q


def reverse(p, names):
    """Draw some bundles from the other end."""
    q = clone(p)
    for b in q.bundles:
        if b.name not in names:
            continue
        u = b.nodes()
        K = len(u) - 1
        b.points = b.points[::-1].copy()
        b.ndiv = list(b.ndiv)[::-1]
        for ln in b.lines:
            out = []
            for c, x, mod in ln.connectors:
                k = min(int(np.argmin(np.linalg.norm(u - x, axis=1))), K-1)
                out.append((c, u[k+1].copy(), mod))
            ln.connectors = out
            ln.zs, ln.zl = ln.zl, ln.zs
            ln.sources = {(c, {"S": "L", "L": "S"}[s]): f for (c, s), f in ln.sources.items()}
            if ln.percell:
                ln.percell = {k: np.array(x)[::-1].copy() for k, x in ln.percell.items()}
        b.local = [(e, s, c, weighted(f, -1.0)) for s, e, c, f in b.local]
        b.rloc = [(e, s, c, x) for s, e, c, x in b.rloc]
        b.gloc = [(e, s, c, x) for s, e, c, x in b.gloc]
        for tr in b.transfers:
            tr.side = {"initial": "end", "end": "initial", None: None}[tr.side]
    for net in q.nets:
        net.nodes = {nid: (bn, ln, c, {"S": "L", "L": "S"}[s] if bn in names else s)
                     for nid, (bn, ln, c, s) in net.nodes.items()}
    return q


def unreverse(hist, names):
    return {n: (V[:, :, ::-1], -I[:, :, ::-1]) if n in names else (V, I) for n, (V, I) in hist.items()}


def permute(p, rng):
    """Renumber conductors within every line and lines within every inner level.
    Returns the new problem and {bundle: order} with new[conductor] = old[order[conductor]]."""
    q = clone(p)
    orders = {}
    for b, old in zip(q.bundles, p.bundles):
        where = {ln.name: old.offset(o) for ln, o in zip(b.lines, old.lines)}
        maps = {}
        for ln in b.lines:
            perm = rng.permutation(ln.n)
            maps[ln.name] = perm
            ix = np.ix_(perm, perm)
            ln.l, ln.c, ln.r, ln.g = ln.l[ix], ln.c[ix], ln.r[ix], ln.g[ix]
            inv = np.argsort(perm)
            ln.connectors = [(int(inv[c]), x, m) for c, x, m in ln.connectors]
            if ln.zs is not None:
                ln.zs, ln.zl = ln.zs[perm], ln.zl[perm]
            ln.sources = {(int(inv[c]), s): f for (c, s), f in ln.sources.items()}
        b.levels = [[lev[k] for k in rng.permutation(len(lev))] for lev in b.levels]
        order = np.concatenate([where[ln.name] + maps[ln.name] for ln in b.lines])
        orders[b.name] = order
        inv = np.argsort(order)
        widths = [sum(l.n for l in lev) for lev in b.levels]
        for key in ("local", "rloc", "gloc"):
            setattr(b, key, [(s, e, int(inv[c]), x) for s, e, c, x in getattr(b, key)])
        for tr in b.transfers:
            oo, io = sum(widths[:tr.out_level]), sum(widths[:tr.in_level])
            tr.out_cond = [int(inv[oo + c]) - oo for c in tr.out_cond]
            tr.in_cond = [int(inv[io + c]) - io for c in tr.in_cond]
        for fs in b.fields:
            d = fs.distances[b.name]
            fs.distances = dict(fs.distances)
            fs.distances[b.name] = d[order[:d.shape[0]]]
        for net in q.nets:
            net.nodes = {nid: (bn, ln, int(np.argsort(maps[ln.name])[c]), s) if bn == b.name else (bn, ln, c, s)
                         for nid, (bn, ln, c, s) in net.nodes.items()}
    return q, orders


def scale_impedance(p, k):
    q = clone(p)
    for b in q.bundles:
        for ln in b.lines:
            ln.l, ln.c, ln.r, ln.g = ln.l*k, ln.c/k, ln.r*k, ln.g/k
            ln.connectors = [(c, x, m.scaled(k)) for c, x, m in ln.connectors]
            if ln.zs is not None:
                ln.zs, ln.zl = ln.zs*k, ln.zl*k
        for tr in b.transfers:
            tr.model = tr.model.scaled(k)
        b.rloc = [(s, e, c, x*k) for s, e, c, x in b.rloc]
        b.gloc = [(s, e, c, x/k) for s, e, c, x in b.gloc]
    for net in q.nets:
        out = []
        for e in net.elements:
            if e[0] == "R":
                e = ("R", e[1], e[2]*k, e[3])
            elif e[0] == "C":
                e = ("C", e[1], e[2]/k, e[3])
            elif e[0] == "LCpRs":
                e = ("LCpRs", e[1], e[2]*k, e[3]*k, e[4]/k, e[5])
            elif e[0] == "RR":
                e = ("RR", e[1], e[2], e[3]*k, e[4])
            out.append(e)
        net.elements = out
    return q


def stretch(p, s):
    """All lengths and times multiplied by s (velocities unchanged)."""
    q = map_sources(p, lambda k, f: (lambda t: f(t/s)))

    def m(model, per_metre=False):
        d = s if per_metre else 1.0
        return Model(model.cte/d, model.prop*s/d, [x/s for x in model.poles], [r/s/d for r in model.residues])
    for b in q.bundles:
        b.points = b.points*s
        for ln in b.lines:
            ln.r, ln.g = ln.r/s, ln.g/s
            ln.connectors = [(c, x*s, m(mod)) for c, x, mod in ln.connectors]
        for tr in b.transfers:
            tr.model = m(tr.model, True)
        b.local = [(a*s, e*s, c, weighted(f, 1/s)) for a, e, c, f in b.local]
        b.rloc = [(a*s, e*s, c, x) for a, e, c, x in b.rloc]
        b.gloc = [(a*s, e*s, c, x) for a, e, c, x in b.gloc]
    for net in q.nets:
        out = []
        for e in net.elements:
            if e[0] == "C":
                e = ("C", e[1], e[2]*s, e[3])
            elif e[0] == "LCpRs":
                e = ("LCpRs", e[1], e[2], e[3]*s, e[4]*s, e[5])
            out.append(e)
        net.elements = out
    q.dt = p.dt*s
    return q
