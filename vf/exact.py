"""Exact rational geometry for oracles."""
from fractions import Fraction as F


def vec(p):
    return tuple(F(x) for x in p)


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def norm(a):
    return float(dot(a, a)) ** 0.5


def seg_tri(t, p, q):
    """(status, point): 'hit'/'miss' decided by a margin, 'parallel', or 'unclear'."""
    a, b, c = map(vec, t)
    p, q = vec(p), vec(q)
    ba, ca, qp = sub(b, a), sub(c, a), sub(q, p)
    n = cross(ba, ca)
    d = dot(n, qp)
    size = norm(ba) * norm(ca) * norm(qp)
    side = max(norm(ba), norm(ca), norm(sub(c, b)))
    if norm(n) < 1e-3 * side * side or norm(qp) < 1e-3 * side:
        return 'unclear', None
    if size == 0 or abs(float(d)) < 1e-6 * size:
        return ('parallel' if d == 0 else 'unclear'), None
    phi = dot(n, sub(a, p)) / d
    x = tuple(u + phi * v for u, v in zip(p, qp))
    nn = dot(n, n)
    ax = sub(x, a)
    alfa = dot(cross(ax, ca), n) / nn
    beta = dot(cross(ba, ax), n) / nn
    vals = [float(v) for v in (alfa, beta, 1 - alfa - beta, phi, 1 - phi)]
    if min(abs(v) for v in vals) < 1e-6:
        return 'unclear', None
    if min(vals) > 0:
        return 'hit', tuple(float(v) for v in x)
    return 'miss', None


def tri_tri(t, u):
    """'hit'/'miss' when all six edge tests are decided, otherwise 'unclear'."""
    res = [seg_tri(t, u[i], u[(i + 1) % 3])[0] for i in range(3)] + \
          [seg_tri(u, t[i], t[(i + 1) % 3])[0] for i in range(3)]
    if any(r in ('unclear', 'parallel') for r in res):
        return 'unclear'
    return 'hit' if 'hit' in res else 'miss'


def clip(t2, p, q):
    """Overlap of a segment with a triangle in the plane, exactly: (lo, hi) parameters or None."""
    t2 = [tuple(map(F, x)) for x in t2]
    p, q = tuple(map(F, p)), tuple(map(F, q))
    area = (t2[1][0] - t2[0][0]) * (t2[2][1] - t2[0][1]) - (t2[1][1] - t2[0][1]) * (t2[2][0] - t2[0][0])
    if area < 0:
        t2 = [t2[0], t2[2], t2[1]]
    lo, hi = F(0), F(1)
    for i in range(3):
        a, b = t2[i], t2[(i + 1) % 3]

        def side(z):
            return (b[0] - a[0]) * (z[1] - a[1]) - (b[1] - a[1]) * (z[0] - a[0])
        f0, f1 = side(p), side(q)
        if f0 == f1:
            if f0 < 0:
                return None
            continue
        x = f0 / (f0 - f1)
        if f1 > f0:
            lo = max(lo, x)
        else:
            hi = min(hi, x)
    return (lo, hi)
