"""C23: models completed or changed between runs, and given in any order before them."""
import numpy as np

from lib import gen, refsim, staged
from lib.core import expect, require

PROPERTY = "C23"
TECHNIQUE = "runtime monitor: objects completed step by step between runs, every record compared online with an independent reference simulator that carries its state over"
LEVEL_NOTE = "Observes every node, segment and step of seeded random lines, bundles and networks, with the moment and order of every call drawn at random; exploration."
RULE = ("a case is one structure with a random schedule of calls and runs; non-trivial when something was given after the first run "
        "(or, for order, after the first call); distinct by structure, schedule and kinds of parts")
ASSUMPTIONS = ["connectors of bundled lines before bundling, shorts with their network",
               "the step of a network with capacitors to ground is not changed between runs (its law takes the last two steps)"]
MUST_OBSERVE = {"oracle:between runs": 100, "oracle:order": 30, "parts given later": 200, "changes between runs": 60, "oracle:late probe": 60,
                "oracle:copy": 5, "replaced sources": 10, "steps of another length": 20}


def jobs(tier, rng):
    return gen.jobs_from({"line": (30, 260), "bundle": (30, 260), "network": (20, 180), "field": (10, 80), "order": (30, 260), "step": (10, 80), "copy": (10, 80)}, tier, rng)


def full(rng, kind):
    if kind == "line":
        return gen.standalone(rng, per_cell=rng.random() < .2, connectors=int(rng.integers(0, 4)), rloc=int(rng.integers(0, 3)), gloc=int(rng.integers(0, 3)), max_steps=200)
    if kind == "bundle":
        return gen.single_bundle(rng, depth=int(rng.integers(1, 4)), max_n=2, transfers=int(rng.integers(0, 4)), connectors=1,
                                 end_transfers=int(rng.integers(0, 2)), local=int(rng.integers(0, 4)), rloc=int(rng.integers(0, 3)),
                                 gloc=int(rng.integers(0, 3)), max_steps=200)
    p = gen.junction_problem(rng, max_n=2, depth=int(rng.integers(1, 3)), max_steps=200)
    return p


def run_job(job, res):
    rng = gen.rng_of(job)
    kind = job["kind"]
    shape = kind if kind in ("line", "bundle", "network") else "line" if kind == "copy" else ["line", "bundle", "network"][rng.integers(3)]
    p = full(rng, shape)
    if kind == "field" or (kind == "order" and rng.random() < .2):
        for b in p.bundles:
            for _ in range(int(rng.integers(1, 3))):
                gen.incident_field(rng, b, p.steps*p.dt, region=rng.random() < .5, integrals=False)
    what = ("step",) if kind == "step" else \
        tuple(w for w in staged.ALL if rng.random() < .8 and w != "step") + (("step",) if rng.random() < .4 else ())
    idle = kind == "order"
    stages = staged.plan(rng, p, what, idle)
    late = []

    def each(k, sim, q, part):
        """Probes attached after some of the runs see what the ones that were always there see."""
        for b in q.bundles:
            name = b.name
            for probe, node, typ in [x[1:] for x in late if x[0] == name]:
                mine = np.array(probe.val)
                other = part[name][0 if typ == "voltage" else 1][:, :, node] if part else None
                if part:
                    require(res, "late probe", mine.shape == other.shape and np.array_equal(mine, other),
                            f"{typ} probe added at node {node} of {name} differs from the one that was there: {mine.shape}, {other.shape}")
        if k < len(stages) - 1 and rng.random() < .7:
            b = q.bundles[int(rng.integers(len(q.bundles)))]
            typ = str(rng.choice(["voltage", "current"]))
            node = int(rng.integers(sum(b.ndiv) + (typ == "voltage")))
            late.append((b.name, sim.bundles[b.name].add_probe(b.nodes()[node], typ), node, typ))
    sim, got, ref = staged.run_stages(res, stages, oracle="order" if idle else "between runs", each=each)
    res.count("replaced sources", stages[-1].replaced)
    res.count("steps of another length", len({q.dt for q in stages if q.steps}) - 1)
    if kind == "copy":
        last = stages[-1]
        last.steps = int(rng.integers(20, 60))
        obj = sim.bundles[p.bundles[0].name]
        other = obj.create_clean_copy()
        other.dt = last.dt
        other.run_until((last.steps + .5)*last.dt)
        mine = other.probes[:sum(last.bundles[0].ndiv) + 1]
        V = np.array([q.val for q in mine]).transpose(1, 2, 0)
        want, _ = refsim.run(last)
        rv = want["b0"][0]
        scale = max(np.max(np.abs(rv)), 1e-300)
        expect(res, "copy", np.max(np.abs(V - rv))/scale if V.shape == rv.shape else np.inf, 1e-7, "clean copy of a line completed between runs")
    res.signature = [gen.describe(p), [q.steps for q in stages], list(what)]
    res.sample = {"schedule": [[q.steps, q.dt] for q in stages], "kinds": list(what)}
