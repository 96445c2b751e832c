"""C15: triangle intersections agree with exact geometry."""
import itertools

from vf import exact
from vf import mesh as M
from vf.core import Part, check
from hypothesis import strategies as st

ID = 'C15'
RULE = ('Case = triangles/segments whose configuration is decided exactly by a margin (1e-6 relative); '
        'non-trivial when it is a hit or a near miss inside the bounding boxes.')
SCALES = [1e-4, 1e-3, 0.01, 0.3, 1.0, 12.5, 1e3, 1e4]


def V(p):
    import geom
    return geom.Vect(*[float(x) for x in p])


def T(t):
    import geom
    return geom.Triangle(*[V(p) for p in t])


def S(p, q):
    import geom
    return geom.Segment(V(p), V(q))


def coords(v):
    return (v.X, v.Y, v.Z)


def dist(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b)) ** 0.5


coord = st.one_of(st.floats(-1, 1), st.sampled_from([0.0, 0.5, -0.5, 0.25, 1.0, -1.0]))
point = st.lists(coord, min_size=3, max_size=3)


def seg_tri(c, ctx):
    s = c['scale']
    t = [[s * x for x in p] for p in c['t']]
    if c['aim']:
        # Aim through a chosen point of the plane of the triangle.
        u, v = c['uv']
        x = [t[0][i] + u * (t[1][i] - t[0][i]) + v * (t[2][i] - t[0][i]) for i in range(3)]
        p = [x[i] + s * c['dir'][i] for i in range(3)]
        q = [x[i] - s * c['len'] * c['dir'][i] for i in range(3)]
    else:
        p, q = [s * x for x in c['p']], [s * x for x in c['dir']]
    kind, x = exact.seg_tri(t, p, q)
    if kind in ('unclear', 'parallel'):
        ctx.skip(kind)
        return
    ctx.cls(kind, 'scale {0}'.format(s))
    ctx.nt(kind == 'hit' or bool(c['aim']))
    tol = 1e-7 * s
    for perm in itertools.permutations(range(3)):
        for a, b in ((p, q), (q, p)):
            got = T([t[k] for k in perm]).intersection_with_segment(S(a, b))
            check(len(got) == (1 if kind == 'hit' else 0),
                  'segment {0}-{1} and triangle {2}: {3} points reported, exact answer {4}', a, b,
                  [t[k] for k in perm], len(got), kind)
            if got:
                check(dist(coords(got[0]), x) <= tol, 'intersection {0} instead of {1}', coords(got[0]), x)


@st.composite
def seg_case(draw):
    return {'scale': draw(st.sampled_from(SCALES)), 't': [draw(point) for _ in range(3)],
            'aim': draw(st.sampled_from([1, 1, 1, 0])),
            'uv': [draw(st.floats(-0.3, 1.2)), draw(st.floats(-0.3, 1.2))],
            'dir': draw(point), 'p': draw(point),
            'len': draw(st.sampled_from([1.0, 0.3, 0.01, -0.5, -0.01, 3.0]))}


def parallel(c, ctx):
    """A segment parallel to the plane and off it."""
    s = c['scale']
    mat = M.rotation(c['rot'])
    flat = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [c['apex'][0], c['apex'][1], 0.0],
            [c['p'][0], c['p'][1], c['h']], [c['p'][2], c['p'][3], c['h']]]
    ps = [[s * x for x in M.apply(mat, p)] for p in flat]
    if dist(ps[3], ps[4]) < 1e-3 * s:
        ctx.skip('short')
        return
    ctx.nt()
    check(T(ps[:3]).intersection_with_segment(S(ps[3], ps[4])) == [],
          'a segment parallel to the plane at distance {0} of {1} intersects', c['h'] * s, ps)


parallel_case = st.fixed_dictionaries({
    'scale': st.sampled_from(SCALES), 'rot': st.integers(0, 20),
    'apex': st.tuples(st.floats(-1, 1), st.floats(0.1, 1)).map(list),
    'p': st.lists(st.floats(-1, 1), min_size=4, max_size=4),
    'h': st.sampled_from([0.5, -0.5, 0.01, -0.01, 1e-3, 3.0])})


def coplanar(c, ctx):
    """Everything in one plane (a coordinate plane or a turned one), integer coordinates times a scale."""
    # A short segment near a big triangle cuts a small part of its sides.
    big = c['big']
    t = [[big * x for x in y] for y in c['t']]
    p = [(big if big > 1 else 0) * x + y for x, y in zip(c['near'], c['p'])]
    q = [(big if big > 1 else 0) * x + y for x, y in zip(c['near2'] if c['long'] else c['near'], c['q'])]
    area = (t[1][0] - t[0][0]) * (t[2][1] - t[0][1]) - (t[1][1] - t[0][1]) * (t[2][0] - t[0][0])
    if area == 0 or p == q:
        ctx.skip('degenerate')
        return
    dirs = [(t[(i + 1) % 3][0] - t[i][0], t[(i + 1) % 3][1] - t[i][1]) for i in range(3)]
    d = (q[0] - p[0], q[1] - p[1])
    for i in range(3):
        if d[0] * dirs[i][1] == d[1] * dirs[i][0] and \
                (p[0] - t[i][0]) * dirs[i][1] == (p[1] - t[i][1]) * dirs[i][0]:
            ctx.cls('along an edge')
    iv = exact.clip(t, p, q)
    s = c['scale']
    if iv is not None and abs(float(iv[1] - iv[0])) < (1e-4 if c['rot'] else 1e-6):
        ctx.skip('touch')
        return
    hit = iv is not None and iv[1] > iv[0]
    ctx.cls('overlap' if hit else 'no overlap', 'turned plane' if c['rot'] else 'coordinate plane')
    ctx.nt(hit)
    mat = M.rotation(c['rot'])

    def place(z):
        r = [z[0], z[1] * c['thin']]
        r.insert(c['axis'], c['level'])
        return [s * x for x in (M.apply(mat, r) if c['rot'] else r)]
    tt, pp, qq = [place(z) for z in t], place(p), place(q)
    for perm in ((0, 1, 2), (1, 2, 0), (2, 1, 0)):
        for rev in (0, 1):
            a, b = (qq, pp) if rev else (pp, qq)
            got = T([tt[k] for k in perm]).intersection_with_segment(S(a, b))
            if not hit:
                check(got == [], 'coplanar segment {0}-{1} and triangle {2}: {3} points', a, b, tt, len(got))
                continue
            want = sorted(tuple(float(x) for x in [pp[i] + float(k) * (qq[i] - pp[i]) for i in range(3)])
                          for k in iv)
            check(len(got) == 2, 'coplanar segment {0}-{1} and triangle {2}: {3} points', a, b, tt, len(got))
            g = sorted(map(coords, got))
            ok = all(dist(x, y) <= 1e-6 * s * big for x, y in zip(g, want)) or \
                all(dist(x, y) <= 1e-6 * s * big for x, y in zip(g[::-1], want))
            check(ok, 'coplanar overlap {0} instead of {1}', g, want)


ip = st.lists(st.integers(-6, 6), min_size=2, max_size=2)
coplanar_case = st.fixed_dictionaries({'t': st.lists(ip, min_size=3, max_size=3), 'p': ip, 'q': ip,
                                       'big': st.sampled_from([1, 1, 30, 1000]), 'near': ip, 'near2': ip,
                                       'long': st.integers(0, 1),
                                       'thin': st.sampled_from([1.0, 1.0, 1.0, 2.0 ** -11]),
                                       'axis': st.integers(0, 2), 'level': st.integers(-3, 3),
                                       'rot': st.one_of(st.just(0), st.integers(1, 60)),
                                       'scale': st.sampled_from([1e-4, 1e-2, 1.0, 0.1, 100.0, 1e4])})


def overlap(t, u):
    """Corners of the overlap of two integer triangles of a plane, exactly; [] when they are apart."""
    def cross(a, b, z):
        return (b[0] - a[0]) * (z[1] - a[1]) - (b[1] - a[1]) * (z[0] - a[0])
    t, u = [[tuple(map(exact.F, p)) for p in x] for x in (t, u)]
    if cross(*u) < 0:
        u = u[::-1]
    poly = t
    for i in range(3):
        a, b = u[i], u[(i + 1) % 3]
        out = []
        for j in range(len(poly)):
            p, q = poly[j - 1], poly[j]
            f, g = cross(a, b, p), cross(a, b, q)
            if f * g < 0:
                k = f / (f - g)
                out.append((p[0] + k * (q[0] - p[0]), p[1] + k * (q[1] - p[1])))
            if g >= 0:
                out.append(q)
        poly = out
    return [p for j, p in enumerate(poly) if p not in poly[:j]]


def flat_tri(c, ctx):
    """Two triangles of one plane."""
    t, u = c['t'], c['u']
    for x in (t, u):
        if (x[1][0] - x[0][0]) * (x[2][1] - x[0][1]) == (x[1][1] - x[0][1]) * (x[2][0] - x[0][0]):
            ctx.skip('degenerate')
            return
    poly = overlap(t, u)
    area = sum(poly[i - 1][0] * p[1] - poly[i - 1][1] * p[0] for i, p in enumerate(poly))
    if poly and abs(float(area)) < 1e-3:
        ctx.skip('touch')
        return
    s, mat = c['scale'], M.rotation(c['rot'])
    ctx.cls('{0} common corners'.format(len(poly)), 'turned plane' if c['rot'] else 'coordinate plane')
    ctx.nt(bool(poly))

    def place(z):
        r = [float(z[0]), float(z[1]) * c['thin']]
        r.insert(c['axis'], float(c['level']))
        return [s * x for x in (M.apply(mat, r) if c['rot'] else r)]
    want = [place(p) for p in poly]
    tt, uu = [place(p) for p in t], [place(p) for p in u]
    for pt, pu in c['perms']:
        a = [tt[k] for k in list(itertools.permutations(range(3)))[pt]]
        b = [uu[k] for k in list(itertools.permutations(range(3)))[pu]]
        for x, y in ((a, b), (b, a)):
            ps = [coords(v) for v in T(x).intersection_with_triangle(T(y))]
            check(bool(ps) == bool(poly), 'triangles {0} and {1} of a plane: {2} points, common corners {3}', x, y,
                  len(ps), want)
            for v in ps:
                check(bary_ok(tt, v, 1e-6 * s) and bary_ok(uu, v, 1e-6 * s),
                      'reported point {0} is not on both triangles {1} {2}', v, tt, uu)
            for w in want:
                check(any(dist(v, w) <= 1e-6 * s for v in ps),
                      'the corner {0} of the common part of {1} and {2} is not reported: {3}', w, x, y, ps)


flat_case = st.fixed_dictionaries({
    't': st.lists(ip, min_size=3, max_size=3), 'u': st.lists(ip, min_size=3, max_size=3),
    'axis': st.integers(0, 2), 'level': st.integers(-3, 3), 'rot': st.one_of(st.just(0), st.integers(1, 60)),
    'thin': st.sampled_from([1.0, 1.0, 1.0, 2.0 ** -11]),
    'perms': st.lists(st.tuples(st.integers(0, 5), st.integers(0, 5)).map(list), min_size=2, max_size=2),
    'scale': st.sampled_from([1e-4, 1e-2, 1.0, 0.1, 100.0, 1e4])})


def bary_ok(t, x, tol):
    """The point lies on the triangle within tol."""
    a, b, c = t
    u = [b[i] - a[i] for i in range(3)]
    v = [c[i] - a[i] for i in range(3)]
    w = [x[i] - a[i] for i in range(3)]
    dot = lambda p, q: sum(m * n for m, n in zip(p, q))       # noqa: E731
    cross = lambda p, q: [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]]
    n = cross(u, v)
    nn = dot(n, n)
    al, be = dot(cross(w, v), n) / nn, dot(cross(u, w), n) / nn
    e = 1e-5
    return abs(dot(w, n)) <= tol * nn ** 0.5 and al >= -e and be >= -e and al + be <= 1 + e


def tri_tri(c, ctx):
    s = c['scale']
    t = [[s * x for x in p] for p in c['t']]
    u = [[s * x for x in p] for p in c['u']]
    if c['graze']:
        # A corner of the second one goes through the first one by a little.
        a, b = c['uv']
        x = [t[0][i] + a * (t[1][i] - t[0][i]) + b * (t[2][i] - t[0][i]) for i in range(3)]
        e = c['u'][0]
        u = [[x[i] + s * c['graze'] * e[i] for i in range(3)]] + \
            [[x[i] - s * (e[i] + 0.4 * y[i]) for i in range(3)] for y in c['u'][1:]]
    kind = exact.tri_tri(t, u)
    if kind == 'unclear':
        ctx.skip(kind)
        return
    ctx.cls(kind, 'scale {0}'.format(s))
    ctx.nt(kind == 'hit')
    ref = None
    want = [w[1] for w in (exact.seg_tri(x, y[i], y[(i + 1) % 3]) for x, y in ((t, u), (u, t))
                           for i in range(3)) if w[0] == 'hit']
    for pt, pu in c['perms'] + [[0, 0]]:
        a = [t[k] for k in list(itertools.permutations(range(3)))[pt]]
        b = [u[k] for k in list(itertools.permutations(range(3)))[pu]]
        for x, y in ((a, b), (b, a)):
            got = T(x).intersection_with_triangle(T(y))
            check(bool(got) == (kind == 'hit'), 'triangles {0} and {1}: {2} points, exact answer {3}', x, y,
                  len(got), kind)
            ps = [coords(v) for v in got]
            for v in ps:
                check(bary_ok(t, v, 1e-6 * s) and bary_ok(u, v, 1e-6 * s),
                      'reported point {0} is not on both triangles {1} {2}', v, t, u)
            for i in range(len(ps)):
                for j in range(i):
                    check(dist(ps[i], ps[j]) > 0.9e-10, 'a point is reported twice: {0}', ps)
            if ref is None:
                ref = ps
                for w in want:
                    check(any(dist(v, w) <= 1e-7 * s for v in ps),
                          'the common point {0} of triangles {1} and {2} is not reported: {3}', w, x, y, ps)
            check(all(any(dist(v, w) <= 1e-6 * s for w in ref) for v in ps) and
                  all(any(dist(v, w) <= 1e-6 * s for w in ps) for v in ref),
                  'points {0} differ from points {1} of another order', ps, ref)
    if ref:
        ctx.cls('{0} points'.format(len(ref)))


@st.composite
def tri_case(draw):
    return {'scale': draw(st.sampled_from(SCALES)), 't': [draw(point) for _ in range(3)],
            'u': [draw(point) for _ in range(3)],
            'graze': draw(st.sampled_from([0, 0, 0.1, 1e-2, 1e-3, 1e-4, 2e-5])),
            'uv': [draw(st.floats(0.02, 0.9)), draw(st.floats(0.02, 0.9))],
            'perms': [[draw(st.integers(0, 5)), draw(st.integers(0, 5))] for _ in range(2)]}


def distinct(c, ctx):
    """Touching triangles too: never the same point twice, every point on both."""
    mat = M.rotation(c['rot'])
    pts = [[c['scale'] * x for x in M.apply(mat, p)] for p in c['pts']]
    t, u = [pts[i] for i in c['ti']], [pts[i] for i in c['ui']]
    for x in (t, u):
        a, b, d = map(exact.vec, x)
        if exact.norm(exact.cross(exact.sub(b, a), exact.sub(d, a))) < 0.05 * c['scale'] ** 2:
            ctx.skip('degenerate')
            return
    shared = len(set(c['ti']) & set(c['ui']))
    ctx.cls('{0} shared corners'.format(shared))
    if shared == 3:
        ctx.skip('same triangle')
        return
    for x, y in ((t, u), (u, t)):
        got = T(x).intersection_with_triangle(T(y))
        ps = [coords(v) for v in got]
        ctx.nt(len(ps) > 1)
        for i in range(len(ps)):
            check(bary_ok(t, ps[i], 1e-6 * c['scale']) and bary_ok(u, ps[i], 1e-6 * c['scale']),
                  'reported point {0} is not on both triangles {1} {2}', ps[i], t, u)
            for j in range(i):
                check(dist(ps[i], ps[j]) > 1e-10, 'a point is reported twice: {0}', ps)


index3 = st.lists(st.integers(0, 4), min_size=3, max_size=3, unique=True)
distinct_case = st.fixed_dictionaries({
    'scale': st.sampled_from([0.1, 1.0, 3.0, 100.0]), 'rot': st.integers(0, 20), 'ti': index3, 'ui': index3,
    'pts': st.lists(st.lists(st.integers(-2, 2), min_size=3, max_size=3), min_size=5, max_size=5)})


def parts():
    return [Part('seg_tri', seg_case(), seg_tri, 2500, rule='six corner orders, both directions'),
            Part('parallel', parallel_case, parallel, 600),
            Part('coplanar', coplanar_case, coplanar, 2500, rule='ends of the exact overlap'),
            Part('flat_tri', flat_case, flat_tri, 1500, rule='corners of the exact common part'),
            Part('tri_tri', tri_case(), tri_tri, 1500, rule='both askers, several corner orders'),
            Part('distinct', distinct_case, distinct, 16000, rule='integer, often touching, configurations')]
