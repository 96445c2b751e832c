"""Independent model of a droplet flight: checks a reported path step by step."""
import math

from . import exact
from .core import check

AIR_DENSITY, WATER_DENSITY, AIR_VISCOSITY = 1.292, 1000.0, 1.736e-5


def drag(v, va, d):
    """(acceleration, stiffness k): a = k (va - v)."""
    rel = [x - y for x, y in zip(va, v)]
    s = math.sqrt(sum(x * x for x in rel))
    if s == 0:
        return [0.0] * 3, 0.0
    re = s * d / AIR_VISCOSITY
    cd = 24.0 / re * (1 + 0.166 * re ** 0.33) if re <= 350 else 0.178 * re ** 0.217
    k = 0.75 * cd * AIR_DENSITY / (d * WATER_DENSITY) * s
    # Near the switch of the drag law both sides are acceptable within the jump.
    return [k * x for x in rel], k


def drags(v, va, d):
    """Acceptable accelerations (two around the switch of the drag law)."""
    rel = [x - y for x, y in zip(va, v)]
    s = math.sqrt(sum(x * x for x in rel))
    out = [drag(v, va, d)]
    re = s * d / AIR_VISCOSITY
    if abs(re - 350) < 1e-6 * 350:
        for cd in (24.0 / re * (1 + 0.166 * re ** 0.33), 0.178 * re ** 0.217):
            k = 0.75 * cd * AIR_DENSITY / (d * WATER_DENSITY) * s
            out.append(([k * x for x in rel], k))
    return out


def nearest(air, p):
    """Indices of nearest data points (ties within rounding included)."""
    ds = [math.dist(p, a) for a, _ in air]
    m = min(ds)
    size = max(max(map(abs, p)), max(abs(x) for a, _ in air for x in a))
    return [i for i, x in enumerate(ds) if x <= m * (1 + 1e-12) + 1e-14 * size]


class Path:
    """Result of checking the steps: is the velocity at the end still known?"""

    def __init__(self):
        self.checked = 0
        self.states = None


def check_steps(pts, v0, air, d, dt):
    """Every point follows from the previous one by the step rule."""
    res = Path()
    states = [(list(v0), 1e-15 * (max(map(abs, v0)) + 1e-300))]
    for i in range(len(pts) - 1):
        p, q = pts[i], pts[i + 1]
        ok, best = [], None
        for v, err in states:
            w = [x + y * dt for x, y in zip(p, v)]
            tol = 20 * dt * err + 1e-15 * 4 * (max(map(abs, p)) + dt * max(map(abs, v)))
            dev = max(abs(a - b) for a, b in zip(w, q)) if all(map(math.isfinite, w + list(q))) else 0.0
            step = dt * math.sqrt(sum(x * x for x in v))
            if tol > 1e-3 * step + 1e-13 * max(map(abs, p)) + 1e-300 and tol > 1e-12:
                return res                    # the model has lost its accuracy (stiff step)
            best = dev if best is None else min(best, dev)
            if dev <= tol:
                ok.append((v, err))
        check(ok, 'point {0} of the path is {1}, off the step rule by {2} (previous point {3})', i + 1, q, best, p)
        if i == 0:
            check(states, 'no state')
        res.checked = i + 1
        nxt = []
        for v, err in ok:
            for k in nearest(air, p):
                for a, kk in drags(v, air[k][1], d):
                    nv = [x + y * dt for x, y in zip(v, a)]
                    if not all(map(math.isfinite, nv)):
                        return res
                    nerr = err * (1 + 2 * kk * dt) + 1e-15 * (max(map(abs, v)) + max(map(abs, nv)))
                    nxt.append((nv, nerr))
        states = nxt[:32]
        if len(nxt) > 32:
            return res
        res.states = states
    if len(pts) == 1:
        res.states = states
    return res


def hits(tris, p, q):
    """Exact status of every triangle for one segment."""
    out = []
    for t in tris:
        if any(max(p[i], q[i]) < min(c[i] for c in t) or min(p[i], q[i]) > max(c[i] for c in t) for i in range(3)):
            out.append('miss')
        else:
            out.append(exact.seg_tri(t, p, q)[0])
    return out


def inside(box, p):
    return all(lo <= x <= hi for lo, x, hi in zip(box[0], p, box[1]))


def box_of(air):
    return [min(a[i] for a, _ in air) for i in range(3)], [max(a[i] for a, _ in air) for i in range(3)]
