"""Model documents: a Problem and the document describing it, built together from random choices."""
import json

import numpy as np

from lib import gen
from lib.spec import BundleSpec, LineSpec, Model, NetSpec, Problem, TransferSpec


# ---- magnitudes: the definition of each source kind -----------------------------------------------

def value_of(m):
    """The function of time a document's magnitude stands for."""
    kind = m["type"]
    if kind == "trapezoidal":
        A, tr, tf, f0, D = (m[k] for k in ("amplitude", "rise_time", "fall_time", "f0", "D"))
        flat = D/f0 - (tr + tf)/2

        def f(t):
            q = t % (1/f0)
            if q <= tr:
                return A*q/tr
            if q <= tr + flat:
                return A
            if q <= tr + flat + tf:
                return A*(tr + flat + tf - q)/tf
            return 0.0
    elif kind == "ramp":
        A, t0 = m["amplitude"], m["t0"]

        def f(t):
            return 0.0 if t < 0 else A*min(t/t0, 1.0)
    elif kind == "gaussian_2":
        def f(t):
            return m["amplitude"]*np.exp(-((t - m["x0"])/m["s0"])**2)
    elif kind == "gaussian":
        def f(t):
            return np.exp(-(t - m["x0"])**2/(2*m["s0"]**2))
    elif kind == "sin_sq":
        def f(t):
            return m["amplitude"]*np.sin(m["frequency"]*t)**2 if 0 <= t < np.pi/m["frequency"] else 0.0
    elif kind == "sin":
        def f(t):
            return m["amplitude"]*np.sin(m["frequency"]*t)
    elif kind == "exp":
        def f(t):
            return m["amplitude"]*(1 - np.exp(-t/m["t0"]))
    else:
        raise KeyError(kind)
    return f


KINDS = ("trapezoidal", "ramp", "gaussian_2", "gaussian", "sin_sq", "sin", "exp")


def magnitude(rng, T, kind=None):
    kind = kind or KINDS[int(rng.integers(len(KINDS)))]
    T = T*10**rng.uniform(-1, 0) if rng.random() < .15 else T
    A = float(rng.choice([-1, 1])*10**rng.uniform(-1, 1.5))
    if kind == "trapezoidal":
        f0 = float(rng.uniform(.7, 4)/T)
        tr, tf = (float(x) for x in rng.uniform(.05, .2, size=2)/f0)
        return {"type": kind, "amplitude": A, "rise_time": tr, "fall_time": tf, "f0": f0, "D": float(rng.uniform(.25, .7))}
    if kind == "ramp":
        return {"type": kind, "amplitude": A, "t0": float(T*rng.uniform(.05, .6))}
    if kind == "gaussian_2":
        return {"type": kind, "amplitude": A, "x0": float(T*rng.uniform(.2, .5)), "s0": float(T*rng.uniform(.04, .12))}
    if kind == "gaussian":
        return {"type": kind, "x0": float(T*rng.uniform(.2, .5)), "s0": float(T*rng.uniform(.03, .09))}
    if kind in ("sin_sq", "sin"):
        return {"type": kind, "amplitude": A, "frequency": float(rng.uniform(3, 30)/T)}
    return {"type": kind, "amplitude": A, "t0": float(T*rng.uniform(.1, .6))}


# ---- the document ---------------------------------------------------------------------------------

class Pool:
    """Distinct identifiers in no particular order."""

    def __init__(self, rng, size, low=1):
        self.ids = [int(x) for x in low + rng.permutation(size)]

    def __call__(self):
        return self.ids.pop()


NAMES = ["line_0", "shield", "wire", "bundle_0", "Cable A", "b", "0", "line", "cable_10", "cable_1", "trunk", "drop", "Zt", "S", "L", "x y", "p", "node"]


class Builder:
    """Grows a document and, next to it, the Problem it describes."""

    def __init__(self, rng):
        self.rng = rng
        self.el_ids, self.c_ids, self.m_ids = Pool(rng, 400), Pool(rng, 900), Pool(rng, 200)
        self.m = {"materials": [], "layers": [{"id": 1, "name": "WiresLayer"}], "coordinates": [], "elements": {},
                  "bundles": [], "cables": []}
        self.elements = {"line": [], "polyline": [], "node": []}
        self.names = 0
        self.problem = Problem([], [])
        self.ends = {}              # coordinate id -> (bundle, line, conductor, side)
        self.probes = {}            # name -> (bundle name, kind, node)
        self.elem = {}              # (line name, conductor) -> element id
        self.parents = {}           # line name -> (parent line, conductor)
        self.cable = {}             # line name -> its entry
        self.sides = {}             # (line name, conductor, side) -> coordinate id
        self.coord = {}             # coordinate id -> position
        self.node_el = {}
        self.kind = None            # the only kind of magnitude, if any
        self.stock = []             # materials of cables: (id, line)
        self.fittings = []          # connectors: (id, conductors, kinds allowed, what each conductor gets)

    def name(self):
        self.names += 1
        base = NAMES[int(self.rng.integers(len(NAMES)))]
        return f"{base}{self.names if self.rng.random() < .5 else '_'*self.names}"

    def coordinate(self, x):
        k = self.c_ids()
        self.m["coordinates"].append(f"{k} " + " ".join(repr(float(v)) for v in x))
        self.coord[k] = np.array(x)
        return k

    def node(self, coord):
        k = self.el_ids()
        self.elements["node"].append(f"{k} 0 1 {coord}")
        self.node_el[k] = coord
        return k

    def material(self, entry):
        k = self.m_ids()
        self.m["materials"].append(dict(materialId=k, name=self.name(), **entry))
        return k

    def add(self, section, entry):
        self.m.setdefault(section, []).append(entry)

    # -- structure --
    def line(self, b, level, n, zt=None):
        rng = self.rng
        same = [x for x in self.stock if x[1].n == n]
        if same and rng.random() < .25:         # another cable of a material already used
            mat, ln0 = same[int(rng.integers(len(same)))]
            zt = ln0.zt
            ln = LineSpec(self.name(), ln0.l.copy(), ln0.c.copy(), ln0.r.copy(), ln0.g.copy())
        else:
            ln = gen.line(rng, n, self.name(), b.length)
            ln.g[:] = 0.0
            ln.r = np.diag(np.diag(ln.r))
            scalar = n == 1 and rng.random() < .7
            if scalar:
                entry = {"materialType": "Wire", "inductance": float(ln.l[0, 0]), "capacitance": float(ln.c[0, 0])}
                if rng.random() < .3:
                    entry["radius"] = 1e-3
                if ln.r[0, 0] or rng.random() < .5:
                    entry["resistance"] = float(ln.r[0, 0])
            else:
                entry = {"materialType": "Multiwire", "inductanceMatrix": ln.l.tolist(), "capacitanceMatrix": ln.c.tolist()}
                if np.any(ln.r) or rng.random() < .5:
                    entry["resistanceVector"] = np.diag(ln.r).tolist()
            if zt is not None:
                entry["transferImpedance"] = zt[0]
            keys = list(entry)
            entry = {keys[k]: entry[keys[k]] for k in rng.permutation(len(keys))}
            mat = self.material(entry)
            self.stock.append((mat, ln))
        ln.zt = zt
        while len(b.levels) <= level:
            b.levels.append([])
        b.levels[level].append(ln)
        ids = []
        for c in range(n):
            cs = [self.coordinate(x) for x in b.points]
            k = self.el_ids()
            ids.append(k)
            self.elem[(ln.name, c)] = k
            self.sides[(ln.name, c, "S")], self.sides[(ln.name, c, "L")] = cs[0], cs[-1]
            self.ends[cs[0]], self.ends[cs[-1]] = (b, ln, c, "S"), (b, ln, c, "L")
            self.elements["line" if len(cs) == 2 and rng.random() < .7 else "polyline"].append(
                f"{k} {mat} 1 " + " ".join(map(str, cs)))
        ndiv = [int(x) for x in b.ndiv]
        if len(ndiv) == 1 and rng.random() < .6:
            ndiv = ndiv[0]
        entry = {"name": ln.name, "materialId": mat, "elemIds": ids, "ndiv": ndiv}
        self.cable[ln.name] = entry
        self.m["cables"].append(entry)
        return ln

    def zt(self, b, z, T):
        """A transfer impedance as a document writes it, and what TransferSpec it amounts to."""
        rng = self.rng
        m = gen.model(rng, z*10**rng.uniform(-2.3, -.8)/b.length, T)
        d = m.doc()
        direction = str(rng.choice(["in", "in", "in", "out", "both"]))
        factor = float(rng.uniform(.5, 3)) if rng.random() < .3 else None
        if rng.random() < .15:
            m, d = Model(), dict(Model().doc())
        d["direction"] = direction
        if factor:
            d["factor"] = factor
        return d, m, direction, factor

    def bundle(self, pts, ndiv, depth, T):
        rng = self.rng
        b = BundleSpec(self.name(), pts, ndiv, [])
        tree = {}

        def nest(ln, level):
            """Cables inside the conductors of ln; returns {element: inner}."""
            inner = {}
            for c in range(ln.n):
                kids = {}
                if level + 1 < depth and (rng.random() < .6 or (c == 0 and level + 1 >= len(b.levels))):
                    for _ in range(int(rng.integers(1, 3)) if level == 0 else 1):
                        n = int(rng.integers(1, 4)) if rng.random() < .96 else int(rng.integers(4, 7))
                        has = rng.random() < .8
                        z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
                        zt = self.zt(b, z, T) if has and level + 2 < depth else None
                        kid = self.line(b, level+1, n, zt)
                        self.parents[kid.name] = (ln, c)
                        kids.update(nest(kid, level+1))
                inner[str(self.elem[(ln.name, c)])] = kids
            return inner

        n = int(rng.integers(1, 4)) if rng.random() < .93 else int(rng.integers(4, 8))
        z = 100.0
        zt = self.zt(b, z, T) if depth > 1 and rng.random() < .9 else None
        root = self.line(b, 0, n, zt)
        tree = nest(root, 0)
        # order of the cables of a level: the first mention in the nesting
        order = []

        def walk(t):
            for k, sub in t.items():
                order.append(int(k))
                walk(sub)
        walk(tree)
        where = {k: i for i, k in enumerate(order)}
        for lev in b.levels:
            lev.sort(key=lambda l: where[self.elem[(l.name, 0)]])
        widths = {ln.name: sum(l.n for l in lev[:q]) for lev in b.levels for q, ln in enumerate(lev)}
        for k, lev in enumerate(b.levels):
            for ln in lev:
                if ln.name in self.parents:
                    par, pc = self.parents[ln.name]
                    if par.zt:
                        _, m, direction, factor = par.zt
                        for c in range(ln.n):
                            b.transfers.append(TransferSpec(k-1, [widths[par.name]+pc], k, [widths[ln.name]+c], m, direction, factor))
        self.widths = getattr(self, "widths", {})
        self.widths.update(widths)

        def collapse(t):
            """Innermost dictionaries are written as strings, now and then."""
            if not t:
                return ""
            if all(not s for s in t.values()) and rng.random() < .8:
                return " ".join(t)
            return {k: collapse(s) for k, s in t.items()}
        entry = {"name": b.name, "nestedElemIds": collapse(tree)}
        self.m["bundles"].append(entry)
        self.problem.bundles.append(b)
        return b

    # -- ends --
    def simple(self, kind, z, T):
        """A one-terminal connector: its document entry (scalar values) and what it stands for."""
        rng = self.rng
        R = gen.resistor(rng, z)
        L = float(T*z*10**rng.uniform(-2.5, -1))
        C = float(T/z*10**rng.uniform(-2.5, -1))
        if kind == "R":
            e = {"connectorType": "Conn_R", "resistance": R}
        elif kind == "R0":
            R = 0.0
            e = {"connectorType": str(rng.choice(["Conn_R", "Conn_sRLC"])), "resistance": 0.0}
        elif kind == "sRLC":
            e = {"connectorType": "Conn_sRLC", "resistance": R}
        elif kind == "C":
            e = {"connectorType": "Conn_C", "capacitance": C}
        elif kind == "LCpRs":
            R = float(z*rng.uniform(.2, 2))
            e = {"connectorType": "Conn_LCpRs", "resistance": R, "inductance": L, "capacitance": C}
        elif kind == "short":
            R = 0.0
            e = {"connectorType": "Conn_short"}
        if e["connectorType"] == "Conn_sRLC":
            e.update(inductance=0.0, capacitance=1e22)
        return e, (kind, R, L, C)

    def connector(self, ln, kinds, T):
        """A connector material for one end of a cable; returns (material id, what each conductor gets)."""
        rng = self.rng
        z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
        same = [x for x in self.fittings if x[1] == ln.n and x[2] == kinds]
        if same and rng.random() < .25:
            return same[int(rng.integers(len(same)))][::3]
        mat, what = self.fresh_connector(ln, kinds, z, T)
        self.fittings.append((mat, ln.n, kinds, what))
        return mat, what

    def fresh_connector(self, ln, kinds, z, T):
        rng = self.rng
        pick = [str(rng.choice(kinds)) for _ in range(ln.n)]
        if ln.n == 1 and rng.random() < .7 or rng.random() < .2:
            e, what = self.simple(pick[0], z, T)
            return self.material(dict(materialType="Connector", **e)), [what]*ln.n
        es = [self.simple(k, z, T) for k in pick]
        e = {"connectorType": "MultiwireConnector", "connections": [x["connectorType"] for x, _ in es],
             "resistanceVector": [x.get("resistance", 0.0) for x, _ in es]}
        if any(k in ("LCpRs", "sRLC", "R0") for k in pick) or rng.random() < .4:
            e["inductanceVector"] = [x.get("inductance", 0.0) for x, _ in es]
        if any(k in ("LCpRs", "C", "sRLC", "R0") for k in pick) or rng.random() < .4:
            e["capacitanceVector"] = [x.get("capacitance", 1e22) for x, _ in es]
        return self.material(dict(materialType="Connector", **e)), [w for _, w in es]

    def source_at(self, coord, T, many=1):
        fs = []
        for _ in range(many):
            m = magnitude(self.rng, T, self.kind)
            self.add("sources", {"sourceType": "TerminalSource", "type": "voltage", "elemIds": [self.node(coord)], "magnitude": m})
            fs.append(value_of(m))
        return (lambda t: sum(f(t) for f in fs))

    def terminate(self, b, side, T, lines=None, kinds=("R", "R", "sRLC", "C", "LCpRs", "short", "R0"), p_source=.4):
        """Terminate the given cables of a bundle end; one termination entry, or several."""
        rng = self.rng
        net = NetSpec({}, [])
        entries = {}
        for k, lev in enumerate(b.levels):
            for ln in lev:
                if lines is not None and ln not in lines:
                    continue
                mat, what = self.connector(ln, kinds, T)
                self.cable[ln.name]["initialConnectorId" if side == "S" else "endConnectorId"] = mat
                cs = []
                for c in range(ln.n):
                    node = self.sides[(ln.name, c, side)]
                    cs.append(node)
                    net.nodes[node] = (b.name, ln, c, side)
                    src = self.source_at(node, T, 1 if rng.random() < .8 else 2) if rng.random() < p_source else None
                    kind, R, L, C = what[c]
                    if kind in ("R", "sRLC"):
                        net.elements.append(("R", node, R, src))
                    elif kind == "C":
                        net.elements.append(("C", node, C, src))
                    elif kind == "LCpRs":
                        net.elements.append(("LCpRs", node, R, L, C, src))
                    else:
                        net.elements.append(("short", node, src))
                entries.setdefault(k, []).append(cs)
        style = rng.integers(4)
        for k, groups in entries.items():
            if style == 0:                      # one entry per level, all nodes in one list
                flat = [c for g in groups for c in g]
                self.add("terminations", {"name": self.name(), "coordIds": [[flat[q] for q in rng.permutation(len(flat))]]})
            elif style == 1:                    # one list per cable
                self.add("terminations", {"name": self.name(), "coordIds": groups})
            elif style == 2:                    # one entry per cable
                for g in groups:
                    self.add("terminations", {"name": self.name(), "coordIds": [g]})
            else:                               # one list per node
                self.add("terminations", {"name": self.name(), "coordIds": [[c] for g in groups for c in g]})
        self.problem.nets.append(net)

    def join(self, ends, T, shorts=False, p_source=.3):
        """A junction of the given (bundle, side) ends, level by level; terminates what cannot be paired."""
        rng = self.rng
        depth = max(len(b.levels) for b, _ in ends)
        entries = []
        for k in range(depth):
            cables = [(b, ln, s) for b, s in ends if k < len(b.levels) for ln in b.levels[k]]
            if sum(ln.n for _, ln, _ in cables) < 2:
                for b, ln, s in cables:
                    self.terminate(b, s, T, [ln])
                continue
            net = NetSpec({}, [])
            what = {}
            for b, ln, s in cables:
                mat, ws = self.connector(ln, ("short", "R", "R0", "sRLC") if shorts else ("R", "R", "sRLC"), T)
                self.cable[ln.name]["initialConnectorId" if s == "S" else "endConnectorId"] = mat
                for c in range(ln.n):
                    node = self.sides[(ln.name, c, s)]
                    net.nodes[node] = (b.name, ln, c, s)
                    what[node] = ws[c][1]
            nodes = [list(net.nodes)[q] for q in rng.permutation(len(net.nodes))]
            pairs = [(nodes[2*q], nodes[2*q+1]) for q in range(len(nodes)//2)]
            if len(nodes) % 2:
                pairs.append((nodes[-1], nodes[int(rng.integers(len(nodes)-1))]))
            for _ in range(int(rng.integers(0, 3)) if not shorts else 0):
                a, e = (nodes[q] for q in rng.permutation(len(nodes))[:2])
                if (a, e) not in pairs and (e, a) not in pairs:
                    pairs.append((a, e))
            count = {}
            for p in pairs:
                for q in p:
                    count[q] = count.get(q, 0) + 1
            for a, e in pairs:
                fs = [self.source_at(q, T) for q in (a, e) if count[q] == 1 and rng.random() < p_source]
                f = None
                if fs:
                    f = (lambda t, fs=fs: sum(g(t) for g in fs))
                R = what[a] + what[e]
                net.elements.append(("RR", a, e, R, f) if R > 0 else ("SS", a, e, f))
            pairs = [list(p) for p in pairs]
            if rng.random() < .5:
                entries.append({"name": self.name(), "unitedCoordIds": pairs})
            else:
                cut = int(rng.integers(1, len(pairs)+1))
                for part in (pairs[:cut], pairs[cut:]):
                    if part:
                        entries.append({"name": self.name(), "unitedCoordIds": part})
            self.problem.nets.append(net)
        for q in rng.permutation(len(entries)):
            self.add("junctions", entries[q])

    # -- what acts along the cables --
    def cable_ends(self, b, T):
        rng = self.rng
        for lev_index, lev in enumerate(b.levels):
            for ln in lev:
                for c in range(ln.n):
                    for side in "SL":
                        if rng.random() > .15:
                            continue
                        coord = self.sides[(ln.name, c, side)]
                        z = np.sqrt(ln.l[0, 0]/ln.c[0, 0])
                        R = float(z*rng.uniform(.05, 1)) if rng.random() < .7 else 0.0
                        e = {"materialType": "Connector", "connectorType": "Conn_R", "resistance": R}
                        b.rloc.append((b.points[0 if side == "S" else -1],)*2 + (b.offset(ln)+c, R))
                        kids = [l for l in (b.levels[lev_index+1] if lev_index+1 < len(b.levels) else [])
                                if self.parents[l.name][0] is ln and self.parents[l.name][1] == c]
                        if rng.random() < .6:
                            d, m, direction, factor = self.zt(b, z, T)
                            e["transferImpedance"] = d
                            for l in kids:
                                for kc in range(l.n):
                                    b.transfers.append(TransferSpec(lev_index, [self.widths[ln.name]+c], lev_index+1,
                                                                    [self.widths[l.name]+kc], m, direction, factor,
                                                                    "initial" if side == "S" else "end"))
                        self.add("cableEnds", {"name": self.name(), "materialId": self.material(e), "coordIds": [coord]})

    def lumped(self, b, T, count):
        rng = self.rng
        K = sum(b.ndiv)
        u = b.nodes()
        used = set()
        for _ in range(count):
            ln = b.lines[int(rng.integers(len(b.lines)))]
            c, k = int(rng.integers(ln.n)), int(rng.integers(K+1))
            if (ln.name, c, min(k, K-1)) in used:
                continue
            used.add((ln.name, c, min(k, K-1)))
            m = gen.model(rng, np.sqrt(ln.l[0, 0]/ln.c[0, 0]), T)
            mat = self.material({"materialType": "Connector", "connectorType": "Dispersive", "model": m.doc()})
            ln.connectors.append((c, u[k], m))
            self.add("lumpedElements", {"materialId": mat, "cable": ln.name, "coordIds": [self.coordinate(u[k])], "conductor": c})

    def distributed(self, b, T, count):
        rng = self.rng
        for _ in range(count):
            a, e = sorted(rng.uniform(0, 1, size=2))
            if e - a < .02:
                continue
            ln = b.lines[int(rng.integers(len(b.lines)))]
            c = int(rng.integers(ln.n))
            m = magnitude(rng, T, self.kind)
            m2 = dict(m)
            entry = {"sourceType": "DistributedSource", "type": "localized efield drive", "cable": ln.name,
                     "elemIds": [self.node(self.coordinate(b.at(a))), self.node(self.coordinate(b.at(e)))], "magnitude": m2}
            if c or rng.random() < .5:
                entry["conductor"] = c
            b.local.append((b.at(a), b.at(e), b.offset(ln)+c, value_of(m)))
            self.add("sources", entry)

    def probe(self, b):
        rng = self.rng
        u = b.nodes()
        K = len(u) - 1
        kind = str(rng.choice(["voltage", "current"]))
        name = self.name()
        style = rng.integers(3)
        if style == 0:                          # at a coordinate of an element of the bundle
            ln = b.lines[int(rng.integers(len(b.lines)))]
            want = self.elem[(ln.name, int(rng.integers(ln.n)))]
            el = next(x for key in ("line", "polyline") for x in self.elements[key] if int(x.split()[0]) == want)
            cs = el.split()[3:]
            q = int(rng.integers(len(cs)))
            k = int(np.sum(b.ndiv[:q]))
            entry = {"name": name, "type": kind, "elemIds": [self.node(int(cs[q]))]}
            if rng.random() < .3:
                entry["cable"] = ln.name
        else:
            k = int(rng.integers(K+1))
            x = u[k]
            if style == 2 and k < K:
                x = u[k] + rng.uniform(0, .4)*(u[k+1] - u[k])
            entry = {"name": name, "type": kind, "elemIds": [self.node(self.coordinate(x))],
                     "cable": b.lines[int(rng.integers(len(b.lines)))].name}
        self.add("probes", entry)
        self.probes[name] = (b.name, kind, k)

    def document(self):
        self.m["elements"] = {k: v for k, v in self.elements.items() if v}
        if self.rng.random() < .3:
            self.m["elements"]["_line_description"] = "elemId materialId layerId coordId1 coordId2"
        return {"_format": "Semba Data File in JSON format", "_version": "0.16", "model": self.m}


def shifted(pts, start, to):
    """The polyline moved so that its first (or last) point is exactly `to`."""
    q = pts + (to - pts[0 if start else -1])
    q[0 if start else -1] = to
    return q


def make(rng, bundles=1, depth=1, lumped=0, distributed=0, ends=False, shorts=False, transits=2.5, max_steps=240,
         courant=None, source=None, probes=None):
    """A random document: returns the Builder (problem, probes, document())."""
    B = Builder(rng)
    B.kind = source
    scale = 10**rng.uniform(-.7, .7)
    J = rng.normal(size=3)*scale if bundles > 1 else None
    joined = []
    geo = []
    for q in range(bundles):
        pts, ndiv = gen.geometry(rng, (6, 18), scale=scale)
        if J is not None:
            side = str(rng.choice(["S", "L"]))
            pts = shifted(pts, side == "S", J)
            joined.append(side)
        geo.append((pts, ndiv))
    T = max(np.sum(np.linalg.norm(np.diff(p, axis=0), axis=1)) for p, _ in geo)/1.5e8*transits
    for pts, ndiv in geo:
        B.bundle(pts, ndiv, depth, T)
    bs = list(B.problem.bundles)
    for q, b in enumerate(bs):
        for side in "SL":
            if J is not None and joined[q] == side:
                continue
            B.terminate(b, side, T)
    if J is not None:
        B.join([(b, s) for b, s in zip(bs, joined)], T, shorts)
    for b in bs:
        if ends:
            B.cable_ends(b, T)
        B.lumped(b, T, int(rng.integers(0, lumped+1)))
        B.distributed(b, T, int(rng.integers(0, distributed+1)))
    if not any(s for s in B.m.get("sources", [])):
        b = bs[0]
        ln = b.levels[0][0]
        net = next(n for n in B.problem.nets if any(x[1] is ln for x in n.nodes.values()))
        node = B.sides[(ln.name, 0, "S" if (J is None or joined[0] == "L") else "L")]
        net = next(n for n in B.problem.nets if node in n.nodes)
        f = B.source_at(node, T)
        net.elements = [e[:-1] + (f,) if e[1] == node else e for e in net.elements]
    for b in bs:
        for _ in range(int(rng.integers(2, 5)) if probes is None else probes):
            B.probe(b)
    gen.finish(rng, B.problem, transits, courant, max_steps)
    return B


def write(path, doc):
    with open(path, "w") as f:
        json.dump(doc, f)
    return path
