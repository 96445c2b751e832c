"""A second implementation of the remeshing scheme on plain lists.

Written from the published scheme and the names of the options; shares no code with the remesher.
Raises Unclear where rounding alone may decide the outcome.
"""
import math

from . import ice
from .ice import add, area, cross, dot, mul, sub, tri_normal, unit


class Unclear(Exception):
    """The result of this case depends on rounding."""


def tetra(a, b, c, d):
    return abs(dot(sub(a, d), cross(sub(b, d), sub(c, d)))) / 6


def wedge(p, q):
    """Volume between a triangle and its displaced copy: three tetrahedra."""
    return (tetra(p[0], p[1], p[2], q[2]) + tetra(p[0], p[1], q[1], q[2]) +
            tetra(p[0], q[0], q[1], q[2]))


def mean(vs, ws=None):
    ws = ws or [1.0] * len(vs)
    return [sum(w * v[k] for v, w in zip(vs, ws)) / sum(ws) for k in range(3)]


class Tong:
    """Remeshing of (points, faces, heights) with a full set of options."""

    def __init__(self, points, faces, hi, opts):
        self.o = {k.replace('remesh_', ''): v for k, v in dict(ice.DEFAULTS, **opts).items()}
        self.p = [list(map(float, x)) for x in points]
        self.f = [tuple(x) for x in faces]
        self.hi = list(hi)
        self.around = [[] for _ in points]
        edges = {}
        for k, f in enumerate(self.f):
            for i in range(3):
                self.around[f[i]].append(k)
                edges.setdefault(tuple(sorted((f[i], f[i - 1]))), []).append(k)
        self.pairs = [fs for fs in edges.values() if len(fs) == 2]
        self.rim = {i for e, fs in edges.items() if len(fs) == 1 for i in e}
        self.steps = None
        self.trace = []

    def corners(self, k):
        return [self.p[i] for i in self.f[k]]

    def areas(self):
        return [area(*self.corners(k)) for k in range(len(self.f))]

    def count(self, whole=False):
        """Number of steps (whole numbers are exact on request): cells in descending order of need; the first that the maximum allows
        among those that may be ignored, the maximum otherwise."""
        need = []
        for k, h in enumerate(self.hi):
            a, b, c = self.corners(k)
            x = h / (min(math.dist(a, b), math.dist(b, c), math.dist(a, c)) * self.o['nsteps_hi_side_fact'])
            if not whole and x > 0.5 and abs(x - round(x)) < 1e-7 * x:
                raise Unclear('a step count at a whole number')
            need.append(int(x) + 1)
        need.sort(reverse=True)
        most, least = self.o['nsteps_max'], self.o['nsteps_min']
        part = len(need) * self.o['nsteps_ignore_part']
        if abs(part - round(part)) < 1e-9 and part != round(part):
            raise Unclear('a part of cells at a whole number')
        spare = int(part)
        n = most
        if need[spare] <= most:
            n = next((x for x in need[:spare] if x <= most), most)
        return max(n, least)

    def columns(self):
        cols = {}
        for i, p in enumerate(self.p):
            cols.setdefault((p[0], p[1]), []).append(i)
        self.cols = [sorted(c, key=lambda i: self.p[i][2]) for c in cols.values()]
        self.z = [p[2] for p in self.p]

    def run(self):
        n = self.steps = self.count()
        self.target = [a * h for a, h in zip(self.areas(), self.hi)]
        self.rest = list(self.target)
        self.actual = [0.0] * len(self.f)
        if self.o['pseudo_2d_oz']:
            self.columns()
        for i in range(n):
            self.step(n - i)
            self.trace.append([list(x) for x in self.p])
        return self.p

    def step(self, left):
        o = self.o
        self.chunk = [r / left for r in self.rest]
        if not o['rest_volume_redistr']:
            self.rest = [r - c for r, c in zip(self.rest, self.chunk)]
        # Directions.
        self.ar = self.areas()
        self.nrm = [tri_normal(*self.corners(k)) for k in range(len(self.f))]
        fd = list(self.nrm)
        nd = []
        for ks in self.around:
            s = mean([fd[k] for k in ks])
            if ice.norm(s) < 1e-3:
                raise Unclear('no direction')
            nd.append(unit(s))
        for _ in range(o['nsmooth_steps']):
            fd = [mean([nd[i] for i in f],
                       [max(o['nsmooth_s'] * (1 - dot(fd[k], nd[i])), o['nsmooth_k']) for i in f])
                  for k, f in enumerate(self.f)]
            nd = [mean([fd[k] for k in ks], [1 / self.ar[k] for k in ks]) for ks in self.around]
        self.nd = nd
        # Heights.
        self.heights()
        for _ in range(o['hsmooth_steps']):
            top = max(self.h)
            new = list(self.chunk)
            for a, b in self.pairs:
                if self.h[a] < self.h[b]:
                    a, b = b, a
                if self.h[a] == self.h[b]:
                    continue
                dv = min(self.h[a] - self.h[b], o['hsmooth_alfa'] * top) * self.chunk[a] / self.h[a]
                new[a] -= o['hsmooth_beta'] * dv
                new[b] += o['hsmooth_beta'] * dv
            self.chunk = new
            self.heights()
        # Motion.
        nh = [sum(self.h[k] for k in ks) / len(ks) for ks in self.around]
        q = [add(p, mul(d, h)) for p, d, h in zip(self.p, nd, nh)]
        for k, f in enumerate(self.f):
            v = wedge(self.corners(k), [q[i] for i in f])
            self.actual[k] += v
            if o['rest_volume_redistr']:
                self.rest[k] = max(self.rest[k] - v, 0.0)
        self.p = q
        before = self.areas()
        for _ in range(o['nss_steps']):
            self.relax()
        self.rest = [r * a / b for r, a, b in zip(self.rest, self.areas(), before)]
        if o['pseudo_2d_oz']:
            for c in self.cols:
                x, y = self.p[c[len(c) // 2]][:2]
                for i in c:
                    self.p[i] = [x, y, self.z[i]]

    def heights(self):
        """Cell heights from volumes: V = a h + b h^2 (the cubic term of the frustum is dropped)."""
        self.h = []
        for k, f in enumerate(self.f):
            a, v, n = self.ar[k], self.chunk[k], self.nrm[k]
            if v < -1e-12 * a ** 1.5:
                raise Unclear('negative volume')
            h = v / a
            if v > 0:
                p = self.corners(k)
                ks = [dot(self.nd[i], n) for i in f]
                if min(ks) < 0.05:
                    raise Unclear('a direction along the cell')
                u = [mul(self.nd[i], 1 / x) for i, x in zip(f, ks)]
                p1, p2, u1, u2 = sub(p[1], p[0]), sub(p[2], p[0]), sub(u[1], u[0]), sub(u[2], u[0])
                b = dot(add(cross(p1, u2), cross(u1, p2)), n) / 4
                # The smaller root in the stable form.
                d = a * a + 4 * b * v
                if abs(d) < 1e-4 * a * a:
                    raise Unclear('a double root')
                if d > 0:
                    h = 2 * v / (a + math.sqrt(d))
            self.h.append(h)

    def relax(self):
        """One pass of null-space smoothing."""
        import numpy as np
        o = self.o
        out = [list(x) for x in self.p]
        ar = self.areas()
        nrm = [tri_normal(*self.corners(k)) for k in range(len(self.f))]
        mid = [mean(self.corners(k)) for k in range(len(self.f))]
        for i, ks in enumerate(self.around):
            if o['nss_fix_nodes'] and i in self.rim:
                continue
            d = np.array(sub(mean([mid[k] for k in ks]), self.p[i]))
            A = sum(ar[k] * np.outer(nrm[k], nrm[k]) for k in ks) / sum(ar[k] for k in ks)
            ev, vec = np.linalg.eigh(A)
            cut = o['nss_epsilon'] * max(ev)
            if any(abs(x - cut) < 1e-5 * max(ev) for x in ev):
                raise Unclear('an eigenvalue at the threshold')
            for x, v in zip(ev, vec.T):
                if x < cut:
                    out[i] = [float(y) for y in np.array(out[i]) + o['nss_st'] * np.dot(v, d) * v]
        self.p = out
