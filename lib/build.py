"""Builds the repository's objects from a Problem, drives them, and records what a user can see:
the values every probe recorded (one voltage probe per node, one current probe per segment)."""
import numpy as np

import src.mtl as mtl
import src.mtln as mtln
import src.networks as networks

from lib.core import Violation
from lib.spec import default_dt


def make_line(line, b, thevenin=False):
    kw = {}
    if thevenin:
        form = getattr(line, "form", "1d")
        zs, zl = np.array(line.zs, float), np.array(line.zl, float)
        if form == "scalar":
            zs, zl = float(zs[0]), float(zl[0])
        elif form == "column":
            zs, zl = zs.reshape(-1, 1), zl.reshape(-1, 1)
        elif form == "row":
            zs, zl = zs.reshape(1, -1), zl.reshape(1, -1)
        kw = dict(Zs=zs, Zl=zl)
    if line.n == 1:
        obj = mtl.MTL(l=float(line.l[0, 0]), c=float(line.c[0, 0]), r=float(line.r[0, 0]),
                      g=float(line.g[0, 0]), node_positions=np.array(b.points), ndiv=list(b.ndiv),
                      name=line.name, **kw)
    else:
        obj = mtl.MTL(l=line.l.copy(), c=line.c.copy(), r=line.r.copy(), g=line.g.copy(),
                      node_positions=np.array(b.points), ndiv=list(b.ndiv), name=line.name, **kw)
    if line.percell:
        for key in ("l", "c", "r", "g"):
            arr = getattr(obj, key)
            arr *= np.array(line.percell[key])[:, None, None]
    for cond, position, model in line.connectors:
        obj.add_dispersive_connector(np.array(position), cond, model.doc())
    return obj


def zt_doc(tr):
    d = tr.model.doc()
    d["direction"] = tr.direction
    if tr.factor is not None:
        d["factor"] = tr.factor
    return d


def connector_for(node, elements):
    """The connector description a network wants for a node (it sizes the state variables)."""
    for e in elements:
        if e[1] == node:
            if e[0] == "LCpRs":
                return {"connectorType": "Conn_LCpRs"}
    return {"connectorType": "Conn_R"}


def apply_element(nw, e):
    kind = e[0]
    if kind == "R":
        if e[3] is None:
            nw.connect_to_ground(e[1], e[2])
        else:
            nw.connect_to_ground(e[1], e[2], e[3])
    elif kind == "C":
        nw.connect_to_ground_C(e[1], e[2], e[3] if e[3] is not None else 0)
    elif kind == "LCpRs":
        nw.connect_to_ground_LCpRs(e[1], e[2], e[3], e[4], e[5] if e[5] is not None else 0)
    elif kind == "short":
        nw.short_to_ground(e[1], *([] if e[2] is None else [e[2]]))
    elif kind == "RR":
        if e[4] is None:
            nw.connect_nodes(e[1], e[2], e[3])
        else:
            nw.connect_nodes(e[1], e[2], e[3], e[4])
    elif kind == "SS":
        nw.short_nodes(e[1], e[2], *([] if e[3] is None else [e[3]]))


def owner(b, lines, conductor):
    """The line object of a conductor of a bundle, and its number in that line."""
    line = next(ln for ln in b.lines if b.offset(ln) <= conductor < b.offset(ln) + ln.n)
    return lines[line.name], conductor - b.offset(line)


class Sim:
    """The repository's simulation of a Problem."""

    def __init__(self, problem, probes=True, shuffle=None, defer_networks=False):
        self.problem = problem
        self.axial = problem.steps % 2 == 0        # places on the z axis are given by their z alone
        self.lines, self.bundles = {}, {}
        order = list(problem.bundles)
        if problem.standalone:
            b = problem.bundles[0]
            line = b.lines[0]
            obj = make_line(line, b, thevenin=True)
            for (c, side), f in line.sources.items():
                obj.add_voltage_source(self.place(obj.u[0 if side == "S" else -1]), c, f)
            self.lines[line.name] = obj
            self.bundles[b.name] = obj
            self.top = obj
        else:
            for b in order:
                levels = {}
                for k, level in enumerate(b.levels):
                    levels[k] = []
                    for line in level:
                        obj = make_line(line, b)
                        self.lines[line.name] = obj
                        levels[k].append(obj)
                if b.early:
                    self.localize(b, lambda c: owner(b, self.lines, c))
                if problem.steps % 3 == 1:             # the levels may be given in any order
                    levels = dict(reversed(list(levels.items())))
                obj = mtl.MTLD(levels, name=b.name)
                self.bundles[b.name] = obj
                for tr in [t for t in b.transfers if t.side is None]:
                    obj.add_transfer_impedance(tr.out_level, tr.out_cond, tr.in_level, tr.in_cond, zt_doc(tr))
                for tr in [t for t in b.transfers if t.side is not None]:
                    obj.set_connector_transfer_impedance(tr.side, tr.out_level, tr.out_cond, tr.in_level,
                                                         tr.in_cond, zt_doc(tr))
        for b in order:
            obj = self.bundles[b.name]
            if not b.early or problem.standalone:
                self.localize(b, lambda c: (obj, c))
            for start, end, cond, f in b.local:
                obj.add_localized_longitudinal_field(self.place(start), self.place(end), cond, f, "localized efield drive")
            for fs in b.fields:
                field = mtl.Field(*fs.sym())
                if fs.region is None:
                    obj.add_external_field(field, fs.distances[b.name])
                else:
                    obj.add_external_field(field, fs.distances[b.name], [np.array(p) for p in fs.region])
        if not problem.standalone:
            self.nets = []
            for net in problem.nets:
                self.nets.append(self.make_net(net))
            # the manager may be given everything at once or piece by piece, and the step with each run or once
            self.style = (problem.steps + len(self.nets)) % 3
            bundles = [self.bundles[b.name] for b in order]
            if self.style == 0:
                self.top = mtln.MTLN(bundles, self.nets)
            elif self.style == 1:
                self.top = mtln.MTLN(bundles)
                self.top.add_networks(self.nets)
            else:
                self.top = mtln.MTLN()
                for obj in bundles:
                    self.top.add_bundle(obj)
                for net in self.nets:
                    self.top.add_network(net)
        self.vprobes, self.iprobes = {}, {}
        if probes:
            for b in order:
                self.attach(b.name)

    def localize(self, b, find):
        for start, end, cond, ohms in b.rloc:
            obj, k = find(cond)
            obj.set_resistance_in_region(self.place(start), self.place(end), k, ohms)
        for start, end, cond, siemens in b.gloc:
            obj, k = find(cond)
            obj.add_conductance_in_region(self.place(start), self.place(end), k, siemens)

    def attach(self, name):
        obj = self.bundles[name]
        self.vprobes[name] = [obj.add_probe(self.place(x), "voltage") for x in obj.u]
        self.iprobes[name] = [obj.add_probe(self.place(x), "current") for x in obj.u[:-1]]

    def place(self, x):
        x = np.array(x, dtype=float)
        return float(x[2]) if self.axial and x[0] == 0 and x[1] == 0 else x

    def make_net(self, net):
        """One network per level, as the repository wants them."""
        by_level = {}
        for nid, (bname, line, cond, side) in net.nodes.items():
            b = self.problem.bundle(bname)
            level = next(k for k, ls in enumerate(b.levels) if any(l is line for l in ls))
            desc = by_level.setdefault(level, {})
            entry = desc.setdefault(self.lines[line.name],
                                    {"side": side, "bundle": self.bundles[bname], "connections": []})
            entry["connections"].append([nid, cond, connector_for(nid, net.planned or net.elements)])
        out = {}
        for level, desc in by_level.items():
            nw = networks.Network(desc)
            ids = {c[0] for d in desc.values() for c in d["connections"]}
            for e in net.elements:
                if e[1] in ids:
                    apply_element(nw, e)
            out[level] = nw
        return networks.NetworkD(out)

    def run(self, chunks=None):
        """Advance problem.steps steps (in the given chunks); returns histories and times."""
        p = self.problem
        chunks = chunks or [p.steps]
        hist = {b.name: ([], []) for b in p.bundles}
        times = {b.name: ([], []) for b in p.bundles}
        own = p.own and abs(default_dt(p)/p.dt - 1) < 1e-9 and not any(ln.percell for b in p.bundles for ln in b.lines)
        for m in chunks:
            if p.standalone:
                if not own:
                    self.top.dt = p.dt
                self.top.run_until((m + 0.5)*p.dt)
            elif own or self.style == 2 and self.top.dt == p.dt:
                self.top.run_until((m + 0.5)*p.dt)
            elif self.style == 1:
                self.top.dt = p.dt
                self.top.run_until((m + 0.5)*p.dt)
            else:
                self.top.run_until((m + 0.5)*p.dt, p.dt)
            for q in (q for every in (self.vprobes, self.iprobes) for b in p.bundles for q in every[b.name]):
                if len(q.val) != m:
                    raise Violation("samples", f"{len(q.val)} samples in a run of {m + .5} time steps of {p.dt:.6g}"
                                    f"{' (default step)' if own else ''}")
            for b in p.bundles:
                hist[b.name][0].append(np.array([q.val for q in self.vprobes[b.name]]))
                hist[b.name][1].append(np.array([q.val for q in self.iprobes[b.name]]))
                times[b.name][0].append(np.array([q.t for q in self.vprobes[b.name]]))
                times[b.name][1].append(np.array([q.t for q in self.iprobes[b.name]]))
        out, tout = {}, {}
        for b in p.bundles:
            V = np.concatenate(hist[b.name][0], axis=1).transpose(1, 2, 0)   # steps, n, nodes
            I = np.concatenate(hist[b.name][1], axis=1).transpose(1, 2, 0)
            out[b.name] = (V, I)
            tout[b.name] = (np.concatenate(times[b.name][0], axis=1), np.concatenate(times[b.name][1], axis=1))
        self.times = tout
        return out
