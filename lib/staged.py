"""Models that are completed between runs: parts of a Problem are withheld and given to the repository's objects
only after some steps; whatever has been given by then must act from the next step on, as in the reference."""
import numpy as np

from lib import gen, refsim
from lib import transform as tf
from lib.build import Sim, apply_element, zt_doc
from lib.compare import against_reference

ALL = ("sources", "connectors", "losses", "local", "fields", "transfers", "elements", "step")


def plan(rng, p, what=ALL, idle=False):
    """Cumulative stages of p; each problem lists its parts in the order they are given.
    With idle, nothing is run before everything has been given."""
    n = int(rng.integers(3, 7)) if idle else int(rng.integers(2, 5))

    def late():
        return int(rng.integers(n)) if rng.random() < .7 or idle else 0
    when = {}

    def assign(key, items, kind, stage=None):
        when[key] = [(late() if stage is None else stage) if kind in what else 0 for _ in items]
    for b in p.bundles:
        assign((b.name, "local"), b.local, "local")
        assign((b.name, "fields"), b.fields, "fields")
        assign((b.name, "rloc"), b.rloc, "losses", 0 if b.early else None)
        assign((b.name, "gloc"), b.gloc, "losses", 0 if b.early else None)
        assign((b.name, "transfers"), b.transfers, "transfers")
        for ln in b.lines:
            assign((b.name, ln.name), ln.connectors, "connectors", None if p.standalone else 0)
            assign((b.name, ln.name, "sources"), ln.sources, "sources")
    for k, net in enumerate(p.nets):
        assign(("net", k), net.elements, "elements")
        if any(e[0] in ("short", "SS") for e in net.elements):
            when[("net", k)] = [0]*len(net.elements)

    def upto(items, key, s):
        order = sorted(range(len(items)), key=lambda a: when[key][a])
        return [items[a] for a in order if when[key][a] <= s]
    cuts = sorted(int(x) for x in rng.integers(2, max(p.steps - 2, 4), n-1))
    edges = [0] + ([0]*(n-1) if idle else cuts) + [p.steps]
    fixed_step = "step" not in what or any(e[0] == "C" for net in p.nets for e in net.elements)
    out = []
    replaced = 0
    for s in range(n):
        q = tf.clone(p)
        for b in q.bundles:
            for name in ("local", "fields", "rloc", "gloc", "transfers"):
                setattr(b, name, upto(getattr(b, name), (b.name, name), s))
            for ln in b.lines:
                ln.connectors = upto(ln.connectors, (b.name, ln.name), s)
                ln.sources = dict(upto(list(ln.sources.items()), (b.name, ln.name, "sources"), s))
        for k, net in enumerate(q.nets):
            net.planned = list(net.elements)
            net.elements = upto(net.elements, ("net", k), s)
        if out and q.standalone and "sources" in what:      # a source given again replaces the former one
            now = q.bundles[0].lines[0].sources
            before = out[-1].bundles[0].lines[0].sources
            for key, f in before.items():
                now[key] = f
                if rng.random() < .2:
                    now[key] = gen.waveform(rng, p.steps*p.dt)
                    replaced += 1
        q.own = False
        q.steps = edges[s+1] - edges[s]
        if s and not fixed_step and rng.random() < .5:
            q.dt = p.dt*float(rng.uniform(.4, 1))
        out.append(q)
    out[-1].replaced = replaced
    return out


def give(sim, old, new):
    """Hand the parts that are new to the repository's objects."""
    import src.mtl as mtl
    count = 0
    for a, b in zip(old.bundles, new.bundles):
        obj = sim.bundles[b.name]
        for start, end, c, x in b.rloc[len(a.rloc):]:
            obj.set_resistance_in_region(np.array(start), np.array(end), c, x)
            count += 1
        for start, end, c, x in b.gloc[len(a.gloc):]:
            obj.add_conductance_in_region(np.array(start), np.array(end), c, x)
            count += 1
        for start, end, c, f in b.local[len(a.local):]:
            obj.add_localized_longitudinal_field(np.array(start), np.array(end), c, f, "localized efield drive")
            count += 1
        for fs in b.fields[len(a.fields):]:
            extra = [] if fs.region is None else [[np.array(x) for x in fs.region]]
            obj.add_external_field(mtl.Field(*fs.sym()), fs.distances[b.name], *extra)
            count += 1
        for tr in b.transfers[len(a.transfers):]:
            where = tr.out_level, tr.out_cond, tr.in_level, tr.in_cond, zt_doc(tr)
            if tr.side is None:
                obj.add_transfer_impedance(*where)
            else:
                obj.set_connector_transfer_impedance(tr.side, *where)
            count += 1
        if new.standalone:
            l0, l1 = a.lines[0], b.lines[0]
            for c, x, model in l1.connectors[len(l0.connectors):]:
                obj.add_dispersive_connector(np.array(x), c, model.doc())
                count += 1
            for (c, side), f in l1.sources.items():
                if l0.sources.get((c, side)) is not f:
                    obj.add_voltage_source(obj.u[0 if side == "S" else -1], c, f)
                    count += 1
    for a, b, nd in zip(old.nets, new.nets, getattr(sim, "nets", [])):
        for e in b.elements[len(a.elements):]:
            nw = next(x for x in nd.levels.values() if e[1] in x.connections)
            apply_element(nw, e)
            count += 1
    return count


def run_stages(res, stages, tol=1e-7, oracle="between runs", each=None):
    ref = refsim.run_staged(stages)
    sim = Sim(stages[0])
    parts = []
    for k, q in enumerate(stages):
        if k:
            n = give(sim, stages[k-1], q)
            res.count("parts given later", n)
            res.count("changes between runs", int(n > 0 and len(parts) > 0))
        sim.problem = q
        part = sim.run() if q.steps else None
        if part:
            parts.append(part)
        if each:
            each(k, sim, q, part)
    got = {n: tuple(np.concatenate([h[n][k] for h in parts], axis=0) for k in (0, 1)) for n in parts[0]}
    against_reference(res, got, ref, tol, oracle)
    return sim, got, ref


def run(rng, res, p, what=ALL, tol=1e-7, oracle="between runs", idle=False):
    return run_stages(res, plan(rng, p, what, idle), tol, oracle)
