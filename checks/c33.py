"""C33: point classification in a triangle agrees with exact geometry."""
import itertools

from vf import mesh as M
from vf.core import Part, check
from hypothesis import strategies as st

ID = 'C33'
RULE = 'Case = triangle and point given by barycentric coordinates; classes 0-3 are all generated.'
ASSUMPTIONS = ['Heights at least 1% of the longest side; inner barycentric coordinates at least 1e-4; '
               'outer points at least 1e-7 heights outside of an edge or 1e-3 above the plane.']


@st.composite
def triangle(draw, scales=(1e-4, 1e-3, 1e-2, 0.1, 1.0, 7.3, 1e2, 1e4)):
    """Well-shaped triangle by base, apex, rotation, size and place."""
    return {'apex': [draw(st.floats(-0.5, 1.5)), draw(st.floats(0.02, 1.5))],
            'rot': draw(st.sampled_from([0, 0, 1, 2, 3, 4, 5])),
            'scale': draw(st.sampled_from(list(scales))),
            'shift': draw(st.lists(st.sampled_from([0.0, 0.0, 1.0, -3.7, 25.1]), min_size=3, max_size=3))}


def points(c, flat):
    """Place plane points (x, y, h) of the unit setting in space."""
    mat = M.rotation(c['rot'])
    return [[c['scale'] * (x + d) for x, d in zip(M.apply(mat, p), c['shift'])] for p in flat]


def classify(c, ctx):
    import geom
    V = lambda p: geom.Vect(*p)                               # noqa: E731
    flat = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [c['tri']['apex'][0], c['tri']['apex'][1], 0.0]]
    w = c['w']
    kind = c['kind']
    if kind == 'corner':
        bary, want = [[1, 0, 0], [0, 1, 0], [0, 0, 1]][c['i']], 1
    elif kind == 'edge':
        u = w[0]
        bary = [u, 1 - u]
        bary.insert(c['i'], 0.0)
        want = 2
    elif kind == 'inside':
        s = sum(w)
        bary, want = [x / s for x in w], 3
    else:
        # Outside in the plane: a negative coordinate.
        neg = c['neg']
        bary = [w[0], w[1]]
        k = (1 + neg) / sum(bary)
        bary = [x * k for x in bary]
        bary.insert(c['i'], -neg)
        want = 0
    x = [sum(b * p[i] for b, p in zip(bary, flat)) for i in range(3)]
    if kind == 'above':
        x[2] = max(c['neg'], 1e-3)      # the sum of areas depends on the height squared
        want = 0
    ps = points(c['tri'], flat + [x])
    if kind == 'corner':
        ps[3] = list(ps[c['i']])
    ctx.cls(kind, 'scale {0}'.format(c['tri']['scale']))
    ctx.nt()
    for perm in itertools.permutations(range(3)):
        t = geom.Triangle(*[V(ps[k]) for k in perm])
        got = t.point_in_triangle(V(ps[3]))
        check(got == want, '{0} point {1} of triangle {2} is classified {3} instead of {4}', kind, ps[3],
              [ps[k] for k in perm], got, want)


@st.composite
def case(draw):
    return {'tri': draw(triangle()), 'kind': draw(st.sampled_from(['corner', 'edge', 'inside', 'inside',
                                                                   'outside', 'outside', 'above'])),
            'i': draw(st.integers(0, 2)),
            'w': [draw(st.one_of(st.floats(0.05, 0.95), st.sampled_from([1e-4, 1e-3, 0.999]))) for _ in range(3)],
            'neg': draw(st.one_of(st.floats(0.05, 3), st.sampled_from([1e-3, 1e-2, 1.0, 10.0])))
            if draw(st.booleans()) else 10.0 ** draw(st.integers(-7, -2))}


def on_segment(c, ctx):
    import geom
    V = lambda p: geom.Vect(*p)                               # noqa: E731
    s = c['s']
    a, b, x = points(c['tri'], [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [s, c['off'], 0.0]])
    if s in (0.0, 1.0) and c['off'] == 0:
        x = list(a) if s == 0.0 else list(b)
    want = 0 <= s <= 1 and c['off'] == 0
    ctx.cls('on' if want else 'off')
    ctx.nt()
    for p, q in ((a, b), (b, a)):
        got = bool(geom.Vect.point_on_vector(V(p), V(q), V(x)))
        check(got == want, 'point {0} is said to be {1} segment {2}-{3}', x, 'on' if got else 'off', p, q)


seg_case = st.fixed_dictionaries({
    'tri': triangle(), 's': st.one_of(st.floats(0, 1), st.sampled_from([0.0, 1.0, 0.5, -1e-3, -1e-6, 1.000001, 1.001, 2.0, -1.0])),
    'off': st.sampled_from([0.0, 0.0, 1e-3, -1e-3, 3e-4, 1e-4, -1e-4, 0.1, 1.0])})


def plane(c, ctx):
    """Points and triangles in the plane of a triangle or off it."""
    import geom
    V = lambda p: geom.Vect(*p)                               # noqa: E731
    flat = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [c['tri']['apex'][0], c['tri']['apex'][1], 0.0]]
    # Far points are off the plane in proportion.
    ps = points(c['tri'], flat + [[c['far'] * x for x in p] for p in c['pts']])
    off = [p[2] != 0 for p in c['pts']]
    ctx.cls('{0} points off'.format(sum(off)), 'turned' if c['tri']['rot'] else 'coordinate plane')
    ctx.nt()
    other = geom.Triangle(*[V(p) for p in ps[3:6]])
    for perm in itertools.permutations(range(3)):
        t = geom.Triangle(*[V(ps[k]) for k in perm])
        for p, o in zip(ps[3:], off):
            got = bool(t.point_in_one_plane(V(p)))
            check(got == (not o), 'point {0} is said to be {1} the plane of {2}', p, 'in' if got else 'off', ps[:3])
        for k in perm:
            check(t.point_in_one_plane(V(ps[k])), 'corner {0} is said to be off the plane of {1}', ps[k], ps[:3])
        got = bool(t.in_one_plane(other))
        check(got == (not any(off)), 'triangle {0} is said to be {1} the plane of {2}', ps[3:6],
              'in' if got else 'off', ps[:3])


plane_case = st.fixed_dictionaries({
    'tri': triangle(), 'far': st.sampled_from([1.0, 1.0, 1.0, 100.0, 1e4]),
    'pts': st.lists(st.tuples(*[st.integers(-3000000, 3000000).map(lambda k: k / 1e6)] * 2,
                              st.sampled_from([0.0, 0.0, 0.0, 1e-5, -1e-5, -1e-3, 0.1, -0.5, 2.0])).map(list),
                    min_size=3, max_size=3)})


def parts():
    return [Part('plane', plane_case, plane, 1500, rule='all six orders of the corners'),
            Part('classify', case(), classify, 3000, rule='all six orders of the corners'),
            Part('on_segment', seg_case, on_segment, 1500)]
