"""C16: the triangle cloud finds exactly what brute force finds."""
from fractions import Fraction

from vf import exact
from vf import mesh as M
from vf.core import Part, check
from vf.inv import ids
from checks.c15 import S, T, coords, dist
from hypothesis import strategies as st

ID = 'C16'
RULE = 'Case = triangles and segments; non-trivial when some but not all segments (pairs) hit.'
coord = st.one_of(st.floats(-1, 1), st.sampled_from([0.0, 0.5, -0.5, 0.25, 1.0, -1.0]))
point = st.lists(coord, min_size=3, max_size=3)


def well_shaped(t):
    a, b, c = map(exact.vec, t)
    ba, ca, cb = exact.sub(b, a), exact.sub(c, a), exact.sub(c, b)
    side = max(exact.norm(ba), exact.norm(ca), exact.norm(cb))
    return exact.norm(exact.cross(ba, ca)) >= 1e-3 * side * side > 0


def soup(c):
    """Triangles of a case: given corners, or cells of a generated surface."""
    s = c['scale']
    if c.get('mesh'):
        m = M.build(c['mesh'])
        ts = [[list(p) for p in m.corners(f)] for f in range(len(m.faces))]
    else:
        ts = []
        for kind, a, b, d in c['ts']:
            if kind == 'free':
                ts.append([a, b, d])
            else:
                ts.append([[a[i] for i in range(3)], [a[i] + 0.1 * b[i] for i in range(3)],
                           [a[i] + 0.1 * d[i] for i in range(3)]])
        ts = [[[s * x for x in p] for p in t] for t in ts if well_shaped(t)]
        for k in c['same']:
            if ts:
                ts.append([list(p) for p in ts[k % len(ts)]])
    return ts


@st.composite
def soup_case(draw, max_n=14):
    if draw(st.sampled_from([0, 0, 1])):
        return {'scale': 1.0, 'mesh': draw(M.mesh_cases(max_size=3, max_comps=2, variables=[], scales=(1.0, 0.37)))}
    one = st.tuples(st.sampled_from(['free', 'small', 'small']), point, point, point).map(list)
    return {'scale': draw(st.sampled_from([1e-3, 1.0, 1.0, 100.0])),
            'ts': draw(st.lists(one, min_size=1, max_size=max_n)),
            'same': draw(st.lists(st.integers(0, 20), max_size=3))}


def cloud(ts):
    """(triangle objects, cloud built from a copy of their list)."""
    import geom
    objs = [T(t) for t in ts]
    return objs, geom.TrianglesCloud(list(objs))


def leaves(tc, path=()):
    out = []
    if tc.Subclouds:
        check(tc.Triangles == [], 'a branch holds triangles itself')
        for sc in tc.Subclouds:
            out += leaves(sc, path + (tc,))
    else:
        check(tc.Triangles, 'empty leaf')
        for t in tc.Triangles:
            out.append((t, path + (tc,)))
    return out


def segments(c, ts):
    """Segments aimed at corners' combinations of the triangles, and free ones."""
    lo = [min(p[i] for t in ts for p in t) for i in range(3)]
    hi = [max(p[i] for t in ts for p in t) for i in range(3)]
    size = max(h - l for h, l in zip(hi, lo))
    out = []
    for kind, k, w, d, e in c['segs']:
        if kind == 'aim':
            t = ts[k % len(ts)]
            s = sum(w) or 1.0
            x = [sum(w[j] / s * t[j][i] for j in range(3)) for i in range(3)]
            out.append(([x[i] + size * e[0] * d[i] for i in range(3)],
                        [x[i] - size * e[1] * d[i] for i in range(3)]))
        elif kind == 'outside':
            p = [lo[i] + (hi[i] - lo[i]) * w[i] for i in range(3)]
            q = [lo[i] + (hi[i] - lo[i]) * d[i] for i in range(3)]
            ax = k % 3
            sh = 2.2 * (hi[ax] - lo[ax]) + 0.1 * size
            p[ax] += sh
            q[ax] += sh
            out.append((p, q))
        else:
            out.append(([size * (x - 0.5) + lo[i] for i, x in enumerate(w)],
                        [size * x + lo[i] for i, x in enumerate(d)]))
    return out, lo, hi


@st.composite
def first_case(draw):
    seg = st.tuples(st.sampled_from(['aim', 'aim', 'aim', 'free', 'outside']), st.integers(0, 40),
                    st.lists(st.floats(0.02, 1), min_size=3, max_size=3), point,
                    st.lists(st.sampled_from([0.01, 0.2, 1.0, -0.05, 3.0]), min_size=2, max_size=2)).map(list)
    return {'soup': draw(soup_case()), 'segs': draw(st.lists(seg, min_size=1, max_size=6))}


def first(c, ctx):
    ts = soup(c['soup'])
    if not ts:
        ctx.skip('no triangles')
        return
    objs, tc = cloud(ts)
    pos = {id(t): k for k, t in enumerate(objs)}
    # Structure.
    ls = leaves(tc)
    check(sorted(ids([t for t, _ in ls])) == sorted(ids(objs)), 'the tree holds {0} of {1} triangles', len(ls),
          len(objs))
    for t, path in ls:
        for b in path:
            check(all(b.Box.is_point_inside(p) for p in t.Points), 'a triangle sticks out of the box of its branch')
    answers = set()
    segs, lo, hi = segments(c, ts)
    for p, q in segs:
        st_ = [exact.seg_tri(t, p, q)[0] for t in ts]
        got = tc.first_intersection_with_segment(S(p, q))
        sure = 'hit' in st_
        if got is None:
            check(not sure, 'segment {0}-{1} hits triangle {2}, the cloud finds nothing', p, q,
                  ts[st_.index('hit')] if sure else None)
        else:
            check(id(got) in pos, 'the returned triangle is not one of the cloud')
            k = pos[id(got)]
            check(st_[k] != 'miss', 'segment {0}-{1} does not hit the returned triangle {2}', p, q, ts[k])
            if all(max(p[i], q[i]) < lo[i] or min(p[i], q[i]) > hi[i] for i in range(3)):
                check(False, 'a segment outside the box hits')
        if all(s in ('hit', 'miss') for s in st_):
            answers.add(sure)
            # The tree agrees with asking every triangle.
            brute = [k for k, t in enumerate(objs) if t.intersection_with_segment(S(p, q))]
            check(bool(brute) == (got is not None), 'brute force finds {0}', brute)
            ctx.cls('hit' if sure else 'miss')
    ctx.nt(len(answers) > 1 or (True in answers and len(ts) > 2))


def apart(t, u, tol):
    """Boxes of two triangles are clearly disjoint."""
    for i in range(3):
        a, b = [p[i] for p in t], [p[i] for p in u]
        if min(a) > max(b) + tol or min(b) > max(a) + tol:
            return True
    return False


def pairs(c, ctx):
    """Two clouds, and a cloud with itself, against all pairs."""
    ta, tb = soup(c['a']), soup(c['b'])
    if not ta or not tb:
        ctx.skip('no triangles')
        return
    if c['bring']:
        # Put the second set over the first one.
        ca = [sum(p[i] for t in ta for p in t) / (3 * len(ta)) for i in range(3)]
        cb = [sum(p[i] for t in tb for p in t) / (3 * len(tb)) for i in range(3)]
        sa = max(abs(p[i] - ca[i]) for t in ta for p in t for i in range(3))
        sb = max(abs(p[i] - cb[i]) for t in tb for p in t for i in range(3))
        k = sa / sb
        tb = [[[ca[i] + k * (p[i] - cb[i]) * c['size'] for i in range(3)] for p in t] for t in tb]
    oa, ca = cloud(ta)
    if c['self']:
        ob, cb, tb = oa, ca, ta
    else:
        ob, cb = cloud(tb)
    res = ca.intersection_with_triangles_cloud(cb)
    names = {id(t): ('a', k) for k, t in enumerate(oa)}
    if not c['self']:
        names.update({id(t): ('b', k) for k, t in enumerate(ob)})
    got = {}
    for r in res:
        check(len(r) == 2 and id(r[0]) in names, 'a record without a triangle of the clouds: {0}', r)
        check(len(r[1]) > 0, 'a record without points')
        got.setdefault(names[id(r[0])], []).append([coords(v) for v in r[1]])
    want, unclear, hits = {}, set(), 0
    size = max(abs(x) for t in ta + tb for p in t for x in p)
    tol = 1e-7 * size
    for i, x in enumerate(oa):
        for j, y in enumerate(ob):
            u, v = names[id(x)], names[id(y)]
            kind = 'miss' if apart(ta[i], tb[j], tol) else exact.tri_tri(ta[i], tb[j])
            ps = x.intersection_with_triangle(y)
            if kind == 'unclear':
                unclear |= {u, v}
            else:
                check(bool(ps) == (kind == 'hit'), 'triangles {0} and {1}: {2} points, exact answer {3}', ta[i],
                      tb[j], len(ps), kind)
            if ps:
                hits += 1
                for n in (u, v):
                    want.setdefault(n, []).append(([coords(z) for z in ps], kind))

    def same(a, b):
        return len(a) == len(b) and all(any(dist(x, y) <= tol for y in b) for x in a)
    for n in set(got) | set(want):
        g, w = got.get(n, []), want.get(n, [])
        # A touch at the border of two boxes may be rounded away; decided pairs may not.
        for ps, kind in w:
            check(kind == 'unclear' or any(same(ps, q) for q in g), 'triangle {0}: points {1} of a pair are lost', n,
                  ps)
        for q in g:
            check(any(same(q, ps) for ps, _ in w), 'triangle {0}: points {1} belong to no intersecting pair', n, q)
        check(n in unclear or len(g) == len(w), 'triangle {0} is reported in {1} pairs instead of {2}', n, len(g),
              len(w))
    ctx.cls('{0} pairs'.format(min(hits, 10)))
    ctx.nt(0 < hits < len(oa) * len(ob))


pairs_case = st.fixed_dictionaries({'a': soup_case(8), 'b': soup_case(8), 'bring': st.sampled_from([1, 1, 1, 0]),
                                    'size': st.sampled_from([1.0, 0.3, 2.0]), 'self': st.sampled_from([0, 0, 1])})


def lattice(c, ctx):
    """Integer corners: boxes and triangles that just touch, plates in one plane, shared owners."""
    ax, k = c['axes'], c['scale']

    def put(t):
        return [[k * p[ax[i]] for i in range(3)] for p in t]

    def full(t):
        u, v = [y - x for x, y in zip(t[0], t[1])], [y - x for x, y in zip(t[0], t[2])]
        return any(exact.cross(u, v))
    ta = [put(t) for t in c['a'] if full(t)]
    tb = [put([[p[0], p[1], p[2] + c['dz']] for p in t]) for t in c['b'] if full(t)]
    if not ta or not tb:
        ctx.skip('no triangles')
        return
    oa, ca = cloud(ta)
    ob, cb = cloud(tb)
    if c['owners']:
        own = [['owner'] for _ in range(c['owners'])]
        for i, t in enumerate(oa + ob):
            t.BackRef = own[i % len(own)]
        import geom
        ca, cb = geom.TrianglesCloud(list(oa)), geom.TrianglesCloud(list(ob))
        check(len(leaves(ca)) == len(oa) and len(leaves(cb)) == len(ob), 'triangles of one owner are lost')
    got = {}
    for r in ca.intersection_with_triangles_cloud(cb):
        got.setdefault(id(r[0]), []).append(r[1])
    sure, maybe = {}, {}
    touch = 0
    for x, t in zip(oa, ta):
        for y, u in zip(ob, tb):
            p, q = x.intersection_with_triangle(y), y.intersection_with_triangle(x)
            for o in (x, y):
                sure[id(o)] = sure.get(id(o), 0) + bool(p and q)
                maybe[id(o)] = maybe.get(id(o), 0) + bool(p or q)
            touch += bool(p and q) and any(max(z[i] for z in t) == min(z[i] for z in u) or
                                           max(z[i] for z in u) == min(z[i] for z in t) for i in range(3))
    for o in oa + ob:
        n = len(got.get(id(o), []))
        check(sure[id(o)] <= n <= maybe[id(o)], 'triangle {0} is reported in {1} pairs, brute force finds {2}', o, n,
              sure[id(o)])
    ctx.cls('{0} touching pairs'.format(min(touch, 10)))
    ctx.nt(touch > 0)
    for p, q in c['segs']:
        if p == q:
            continue
        p, q = put([p, q])
        brute = [t for t in oa if t.intersection_with_segment(S(p, q))]
        r = ca.first_intersection_with_segment(S(p, q))
        check((r is not None) == bool(brute), 'segment {0}-{1}: the cloud finds {2}, brute force {3} triangles', p, q,
              r, len(brute))
        check(r is None or any(r is t for t in brute), 'segment {0}-{1} does not hit {2}', p, q, r)


ip = st.lists(st.integers(-2, 3), min_size=3, max_size=3)


@st.composite
def lattice_case(draw):
    flat = draw(st.sampled_from([0, 0, 1, 2]))

    def tri(f):
        t = [draw(ip) for _ in range(3)]
        return [[x[0], x[1], 0 if f else x[2]] for x in t]
    na, nb = draw(st.integers(1, 7)), draw(st.integers(1, 7))
    return {'a': [tri(flat) for _ in range(na)], 'b': [tri(flat == 2) for _ in range(nb)],
            'dz': draw(st.sampled_from([0, 0, 0, 5, 1, -3])), 'axes': draw(st.permutations([0, 1, 2])),
            'scale': draw(st.sampled_from([1.0, 0.125, 64.0])), 'owners': draw(st.sampled_from([0, 0, 1, 3])),
            'segs': [[draw(ip), draw(ip)] for _ in range(draw(st.integers(0, 4)))]}


def depth(c, ctx):
    """Many identical or equal-centre triangles: the tree is built, balanced, and answers."""
    t = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 1.0, 0.0]]
    n = c['n']
    ts = [t] * n if c['kind'] == 'same' else \
        [[[x * (k + 1) for x in p] for p in [[-1.0, -1.0, 0.0], [2.0, -1.0, 0.0], [-1.0, 2.0, 0.0]]] for k in range(n)]
    objs, tc = cloud(ts)
    ls = leaves(tc)
    check(sorted(ids([x for x, _ in ls])) == sorted(ids(objs)), 'triangles lost or doubled')
    ctx.nt(n > 1)
    hit = tc.first_intersection_with_segment(S([0.2, 0.3, 1.0], [0.2, 0.3, -1.0]))
    check(hit is not None and any(hit is o for o in objs), 'no hit')
    check(tc.first_intersection_with_segment(S([0.2, 0.3, 1.0], [0.2, 0.3, 0.5])) is None, 'false hit')


def box(c, ctx):
    """Boxes enclose tightly and never reject a possible intersection."""
    import geom
    V = lambda p: geom.Vect(*p)                               # noqa: E731
    ps, qs = c['p'], c['q']
    b = geom.Box.from_points([V(p) for p in ps])
    d = geom.Box([V(p) for p in qs])
    lo = [min(p[i] for p in ps) for i in range(3)]
    hi = [max(p[i] for p in ps) for i in range(3)]
    check([b.MinX, b.MinY, b.MinZ, b.MaxX, b.MaxY, b.MaxZ] == lo + hi, 'box of {0}', ps)
    check(all(b.is_point_inside(V(p)) for p in ps), 'a point is outside of its own box')
    for x in qs:
        check(bool(b.is_point_inside(V(x))) == all(l <= v <= h for l, v, h in zip(lo, x, hi)),
              'point {0} in box {1} {2}', x, lo, hi)
    lo2 = [min(p[i] for p in qs) for i in range(3)]
    hi2 = [max(p[i] for p in qs) for i in range(3)]
    meet = all(l <= h2 and l2 <= h for l, h, l2, h2 in zip(lo, hi, lo2, hi2))
    ctx.cls('meet' if meet else 'apart')
    ctx.nt()
    for x, y in ((b, d), (d, b)):
        check(bool(x.is_potential_intersect_with_box(y)) == meet, 'boxes {0} {1} and {2} {3}', lo, hi, lo2, hi2)
    s2 = S(qs[0], qs[-1])
    lo2 = [min(qs[0][i], qs[-1][i]) for i in range(3)]
    hi2 = [max(qs[0][i], qs[-1][i]) for i in range(3)]
    r = bool(b.is_intersect_with_segment(s2))
    if any(l > h2 or l2 > h for l, h, l2, h2 in zip(lo, hi, lo2, hi2)):
        check(not r, 'segment {0} beside box {1} {2}', qs, lo, hi)
    # A segment with a point in the box is never rejected.
    for k in (0.0, 0.25, 0.5, 0.75, 1.0):
        x = [(1 - Fraction(k)) * Fraction(qs[0][i]) + Fraction(k) * Fraction(qs[-1][i]) for i in range(3)]
        if all(l <= v <= h for l, v, h in zip(lo, x, hi)):
            check(r, 'segment {0} meets box {1} {2} but is rejected', qs, lo, hi)


box_case = st.fixed_dictionaries({'p': st.lists(point, min_size=1, max_size=5),
                                  'q': st.lists(point, min_size=1, max_size=3)})


def parts():
    return [Part('first', first_case(), first, 1500, rule='tree answer against exact arithmetic on every triangle'),
            Part('pairs', pairs_case, pairs, 250, rule='all pairs tested one by one'),
            Part('lattice', lattice_case(), lattice, 900, rule='a pair with touching boxes has points in common'),
            Part('depth', st.fixed_dictionaries({'n': st.integers(1, 200),
                                                 'kind': st.sampled_from(['same', 'nested'])}), depth, 60),
            Part('box', box_case, box, 2500)]
