"""Abstract descriptions of MTL problems: what is simulated, independent of any code that does it.

A Problem holds bundles (cables laid along one polyline, arranged in levels) and junctions or
terminations (NetSpec).  The reference simulator, the Laplace-domain model, the builder of the
repository's objects and the document writer all start from the same Problem.
"""
from dataclasses import dataclass, field
from typing import Callable, Dict, List, Optional, Tuple

import numpy as np


@dataclass
class Model:
    """Series impedance  cte + s*prop + sum r/(s-p)."""
    cte: float = 0.0
    prop: float = 0.0
    poles: List[complex] = field(default_factory=list)
    residues: List[complex] = field(default_factory=list)

    def doc(self):
        return {"cte": self.cte, "prop": self.prop,
                "poles": {"real": [p.real for p in self.poles], "imag": [p.imag for p in self.poles]},
                "residues": {"real": [p.real for p in self.residues],
                             "imag": [p.imag for p in self.residues]}}

    def z(self, s):
        return self.cte + s*self.prop + sum(r/(s-p) for p, r in zip(self.poles, self.residues))

    def scaled(self, k):
        return Model(self.cte*k, self.prop*k, list(self.poles), [r*k for r in self.residues])


@dataclass
class LineSpec:
    name: str
    l: np.ndarray
    c: np.ndarray
    r: np.ndarray
    g: np.ndarray
    connectors: List[Tuple[int, np.ndarray, Model]] = field(default_factory=list)
    zs: Optional[np.ndarray] = None           # Thevenin ends (a line on its own)
    zl: Optional[np.ndarray] = None
    sources: Dict[Tuple[int, str], Callable] = field(default_factory=dict)
    percell: Optional[dict] = None             # {"l": [K], "c": [K+1], "r": [K], "g": [K+1]} factors

    @property
    def n(self):
        return self.l.shape[0]


@dataclass
class TransferSpec:
    out_level: int
    out_cond: List[int]
    in_level: int
    in_cond: List[int]
    model: Model
    direction: str = "in"
    factor: Optional[float] = None
    side: Optional[str] = None                 # None: along the bundle, else "initial"/"end"


@dataclass
class FieldSpec:
    """Incident field (ex, ey, ez)(x, y, z, t, v) as plain functions and as sympy expressions."""
    fn: Callable
    sym: Callable                              # () -> (ex, ey, ez)
    distances: Dict[str, np.ndarray] = field(default_factory=dict)
    region: Optional[tuple] = None             # (start position, end position) node positions


@dataclass
class BundleSpec:
    name: str
    points: np.ndarray
    ndiv: List[int]
    levels: List[List[LineSpec]]
    transfers: List[TransferSpec] = field(default_factory=list)
    local: List[tuple] = field(default_factory=list)      # (start, end, conductor, f)
    rloc: List[tuple] = field(default_factory=list)       # (start, end, conductor, total ohms)
    gloc: List[tuple] = field(default_factory=list)       # (start, end, conductor, total siemens)
    fields: List[FieldSpec] = field(default_factory=list)
    early: bool = False                                   # losses are set on the lines before they are bundled

    @property
    def lines(self):
        return [line for level in self.levels for line in level]

    @property
    def n(self):
        return sum(line.n for line in self.lines)

    def offset(self, line):
        k = 0
        for other in self.lines:
            if other is line:
                return k
            k += other.n
        raise KeyError(line.name)

    def nodes(self):
        out = []
        for a, b, m in zip(self.points[:-1], self.points[1:], self.ndiv):
            for k in range(m):
                out.append(a + k*((b - a)/m))
        out.append(self.points[-1])
        return np.array(out)

    def seglen(self):
        return np.repeat([np.linalg.norm(b - a)/m for a, b, m in
                          zip(self.points[:-1], self.points[1:], self.ndiv)], self.ndiv)

    @property
    def length(self):
        return float(np.sum(np.linalg.norm(np.diff(self.points, axis=0), axis=1)))

    def nearest(self, x):
        return int(np.argmin(np.linalg.norm(self.nodes() - x, axis=1)))

    def at(self, fraction):
        """Position at a fraction of the length."""
        seg = np.linalg.norm(np.diff(self.points, axis=0), axis=1)
        s = fraction*seg.sum()
        for a, b, l in zip(self.points[:-1], self.points[1:], seg):
            if s <= l*(1 + 1e-12):
                return a + (b - a)*min(s/l, 1.0)
            s -= l
        return self.points[-1].copy()


@dataclass
class NetSpec:
    """nodes: id -> (bundle name, line, conductor of the line, 'S'|'L');  elements: tuples
    ('R', node, ohms, f|None), ('C', node, farads, f|None), ('LCpRs', node, R, L, C, f|None),
    ('short', node, f|None), ('RR', n1, n2, ohms, f|None), ('SS', n1, n2, f|None)."""
    nodes: Dict[int, tuple]
    elements: List[tuple]
    planned: Optional[List[tuple]] = None      # including those connected only after a run


@dataclass
class Problem:
    bundles: List[BundleSpec]
    nets: List[NetSpec] = field(default_factory=list)
    dt: float = 0.0
    steps: int = 0
    own: bool = False                          # run with the step the structure chooses itself, if it is dt
    standalone: bool = False                   # one bundle of one line with Thevenin ends

    def bundle(self, name):
        return next(b for b in self.bundles if b.name == name)


def max_velocity(line):
    return 1/np.sqrt(np.min(np.real(np.linalg.eigvals(line.l @ line.c))))


def default_dt(problem):
    return min(np.min(b.seglen())/max_velocity(line) for b in problem.bundles for line in b.lines)
