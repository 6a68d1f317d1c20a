"""C18: waveforms against their definitions, written out independently; document sources through what they drive."""
import numpy as np

from checks import c10
from lib import doc, gen, refsim
from lib.core import expect, require

PROPERTY = "C18"
TECHNIQUE = "runtime monitor of the values returned by every waveform (numeric and symbolic, scalars and arrays, corners, many periods) against independent definitions; document sources observed through probes"
LEVEL_NOTE = "Exploration over seeded random parameters and instants, with every corner and its neighbouring floating point numbers."
RULE = "a case is one waveform, its parameters and a set of instants; non-trivial when some value is nonzero; distinct by parameters"
ASSUMPTIONS = ["a square pulse includes both its corners", "tolerance 1e-9 of the amplitude (argument rounding over many periods)"]
MUST_OBSERVE = {"oracle:value": 60, "oracle:symbolic": 40, "oracle:probe record": 14, "corner instants": 500, "instants before the start": 500}

PI = np.pi


def d_exp(t, A, x0):
    return A*(1 - np.exp(-t/x0))


def d_gaussian(t, x0, s0):
    return np.exp(-0.5*((t - x0)/s0)**2)


def d_gaussian_2(t, A, x0, s0):
    return A*np.exp(-((t - x0)/s0)**2)


def d_square(t, A, x0):
    return A if 0 <= t <= x0 else 0.0


def d_triangle(t, A, x0):
    return A*t/x0 if 0 <= t <= x0 else 0.0


def d_sin_sq(t, A, w):
    return A*np.sin(w*t)**2 if 0 <= t < PI/w else 0.0


def d_sin(t, A, w):
    return A*np.sin(w*t)


def d_trapezoid(t, A, rise_time, fall_time, f0, D):
    T = 1/f0
    q = t - np.floor(t/T)*T
    flat = D*T - (rise_time + fall_time)/2
    if q < rise_time:
        return A*q/rise_time
    if q < rise_time + flat:
        return A
    return A*max(0.0, 1 - (q - rise_time - flat)/fall_time)


def d_ramp(t, A, x0):
    return A*min(max(t/x0, 0.0), 1.0)


def d_double_exp(t, C, a, b):
    return C*(np.exp(-a*t) - np.exp(-b*t))


def shape_of(rng, T):
    """Parameters of each waveform at a time scale T, with their corner instants."""
    A = float(rng.choice([-1, 1])*10**rng.uniform(-6, 6))
    u = lambda a, b: float(T*rng.uniform(a, b))
    f0 = 1/u(.5, 2)
    D = float(rng.uniform(.05, .9))
    edge = min(2*D, 2*(1 - D))/f0                # rise + fall at most
    r = float(rng.uniform(.05, .95)*edge)
    tr = float(r*rng.uniform(.1, .9))
    tf = r - tr
    x0, s0 = u(-1, 2), u(.05, .5)
    xr = u(.1, 2)
    w = 1/u(.02, .5)
    a = 1/u(.3, 3)
    b = a*float(rng.uniform(1.5, 100))
    flat = D/f0 - (tr + tf)/2
    n = [int(k) for k in rng.integers(-3, 2000, size=8)]
    trap = [k/f0 + c for k in n for c in (0, tr, tr + flat, tr + flat + tf)]
    return {
        "exp": (d_exp, dict(A=A, x0=xr), abs(A), [0.0, xr]),
        "gaussian": (d_gaussian, dict(x0=x0, s0=s0), 1.0, [x0, x0+s0]),
        "gaussian_2": (d_gaussian_2, dict(A=A, x0=x0, s0=s0), abs(A), [x0, x0-s0]),
        "square_pulse": (d_square, dict(A=A, x0=xr), abs(A), [0.0, xr]),
        "triangle_pulse": (d_triangle, dict(A=A, x0=xr), abs(A), [0.0, xr]),
        "sin_sq_pulse": (d_sin_sq, dict(A=A, w=w), abs(A), [0.0, PI/w, PI/w/2]),
        "sin_pulse": (d_sin, dict(A=A, w=w), abs(A), [0.0, PI/w]),
        "trapezoidal_wave": (d_trapezoid, dict(A=A, rise_time=tr, fall_time=tf, f0=f0, D=D), abs(A), trap),
        "ramp_pulse": (d_ramp, dict(A=A, x0=xr), abs(A), [0.0, xr]),
        "double_exp": (d_double_exp, dict(C=A, a=a, b=b), abs(A), [0.0]),
    }


def instants(rng, T, corners, steps_back=1.0):
    t = list(rng.uniform(-steps_back*T, 3*T, size=60)) + list(T*10**rng.uniform(-6, 0, size=10))
    t += [0.0, -0.0] + corners
    for c in corners:
        t += [np.nextafter(c, np.inf), np.nextafter(c, -np.inf)]
    return np.array(t, float)


def jobs(tier, rng):
    return gen.jobs_from({"numeric": (128, 1000), "symbolic": (72, 500)}, tier, rng) + [
        {"kind": "source", "of": k, "seed": rng.randrange(10**9)} for k in doc.KINDS for _ in range(3 if tier == "quick" else 30)]


def numeric(rng, res):
    from src import waveforms as wf
    T = 10**rng.uniform(-12, 1)
    for name, (definition, kw, scale, corners) in shape_of(rng, T).items():
        fn = getattr(wf, name)
        t = instants(rng, T, corners)
        if name == "trapezoidal_wave":
            t = np.append(t, rng.uniform(0, 1e4*T, size=40))
        want = np.array([definition(x, **kw) for x in t])
        top = max(scale, np.max(np.abs(want)))
        scalars = np.array([float(fn(x, **kw)) for x in t.tolist()])
        arr = np.asarray(fn(t, **kw), float)
        grid = np.asarray(fn(t[:60].reshape(3, 20), **kw), float)
        require(res, "array shape", arr.shape == t.shape and grid.shape == (3, 20), f"{name}: {arr.shape} {grid.shape}")
        numpys = np.array([float(fn(x, **kw)) for x in t[:20]])
        keep = np.ones(len(t), bool)
        for how, got, ref in (("scalars", scalars, want), ("arrays", arr, want), ("matrices", grid.ravel(), want[:60]), ("numpy numbers", numpys, want[:20])):
            err = np.where(np.isfinite(got), np.abs(got - ref), np.inf)
            k = int(np.argmax(err))
            expect(res, "value", err[k]/top, 1e-9, f"{name}({kw}) at {t[k]!r} with {how}: {got[k]!r}, definition {ref[k]!r}")
            res.count("values compared", len(ref))
        # by position, as the repository's own documents and tests call them
        args = list(kw.values())
        expect(res, "positional", abs(float(fn(t[0], *args)) - want[0])/top, 1e-9, name)
        res.count("corner instants", 3*len(corners))
        res.count("instants before the start", int(np.sum(t < 0)))
    res.signature = ["numeric", float(f"{T:.6e}")]
    res.sample = {"time scale": T, "waveforms": 10}


SYMBOLIC = {   # name: (numeric definition, parameters it takes, axes, velocity is a symbol)
    "gaussian_2_sp": ("gaussian_2", ("A", "x0", "s0"), "", False),
    "trapezoidal_wave_sp": ("trapezoidal_wave", ("A", "rise_time", "fall_time", "f0", "D"), "x", False),
    "trapezoidal_wave_x_sp": ("trapezoidal_wave", ("A", "rise_time", "fall_time", "f0", "D"), "x", False),
    "ramp_pulse_sp": ("ramp_pulse", ("A", "x0"), "", False),
    "ramp_pulse_x_sp": ("ramp_pulse", ("A", "x0"), "x", False),
    "ramp_pulse_y_sp": ("ramp_pulse", ("A", "x0"), "y", False),
    "ramp_pulse_z_sp": ("ramp_pulse", ("A", "x0"), "z", False),
    "double_exp_sp": ("double_exp", ("C", "a", "b"), "", True),
    "double_exp_xy_sp": ("double_exp", ("C", "a", "b"), "xy", True),
    "double_exp_yz_sp": ("double_exp", ("C", "a", "b"), "yz", True),
    "double_exp_xz_sp": ("double_exp", ("C", "a", "b"), "xz", True),
}


def symbolic(rng, res):
    import sympy as sp
    from src import waveforms as wf
    T = 10**rng.uniform(-10, 0)
    shapes = shape_of(rng, T)
    v = float(rng.choice([-1, 1])*10**rng.uniform(7, 8.5))
    sym = {k: sp.Symbol(k) for k in "xyztv"}
    for name, (base, params, axes, vsym) in SYMBOLIC.items():
        definition, kw, scale, corners = shapes[base]
        args = {k: kw[k] for k in params}
        if axes and not vsym:
            args["v"] = v
        expr = getattr(wf, name)(**args)
        require(res, "symbols", {str(s) for s in expr.free_symbols} <= {"t", *axes, *("v" if vsym and axes else "")}, f"{name}: {expr.free_symbols}")
        f = sp.lambdify(tuple(sym.values()), expr)
        r = rng.normal(size=3)*T*abs(v)
        if base == "double_exp":       # sympy multiplies exp(-b*t) and exp(-b*shift): neither may overflow on its own
            r *= min(1.0, 100*abs(v)/(kw["b"]*np.max(np.abs(r))))
        shift = sum(r["xyz".index(q)]/v for q in axes)
        t = instants(rng, T, corners) - shift
        want = np.array([definition(x + shift, **kw) for x in t])
        top = max(scale, np.max(np.abs(want)))
        # a rounding of the shift moves the instant; only square corners would notice
        got = np.array([float(f(r[0], r[1], r[2], x, v)) for x in t.tolist()])
        err = np.where(np.isfinite(got), np.abs(got - want), np.inf)
        k = int(np.argmax(err))
        expect(res, "symbolic", err[k]/top, 1e-7, f"{name}({args}) at {t[k]!r}, r={r}: {got[k]!r}, definition {want[k]!r}")
        # evaluated the way the solver does: position first, then a function of time alone
        at = expr.subs({sym["x"]: r[0], sym["y"]: r[1], sym["z"]: r[2]}).subs(sym["v"], v)
        g = sp.lambdify(sym["t"], at)
        got = np.array([float(g(x)) for x in t[:40].tolist()])
        expect(res, "symbolic", np.max(np.where(np.isfinite(got), np.abs(got - want[:40]), np.inf))/top, 1e-7, f"{name}({args}) after substitution")
        for x, y in zip(t[:3].tolist(), want[:3]):
            expect(res, "symbolic", abs(float(at.subs(sym["t"], x)) - y)/top, 1e-7, f"{name}({args}) by substitution at {x}")
        res.count("values compared", len(t) + 43)
    n = wf.null()
    require(res, "null", float(sp.lambdify(sym["t"], n)(T)) == 0.0 and float(n) == 0.0, str(n))
    res.signature = ["symbolic", float(f"{T:.6e}")]
    res.sample = {"time scale": T, "velocity": v, "waveforms": len(SYMBOLIC)}


def source(rng, res, kind):
    """A document's source of each kind, seen through what it drives."""
    B = doc.make(rng, bundles=1, depth=1, distributed=int(rng.random() < .4), source=kind, transits=float(rng.uniform(1, 6)))
    p = B.problem
    ref, times = refsim.run(p)
    parser = c10.load(B.document())
    parser.run((p.steps + .5)*p.dt, p.dt)
    c10.compare(res, B, c10.records(parser), ref, times, 1e-6)
    c10.observe(res, B)
    res.signature = ["source", kind, gen.describe(p)]
    res.sample = {"kind": kind, "steps": p.steps}


def run_job(job, res):
    rng = gen.rng_of(job)
    if job["kind"] == "source":
        source(rng, res, job["of"])
    else:
        {"numeric": numeric, "symbolic": symbolic}[job["kind"]](rng, res)
