"""C17: geometric measures equal their definitions."""
import math

from vf import mesh as M
from vf.core import Part, check
from checks.c16 import box, box_case
from checks.c33 import triangle, points
from hypothesis import strategies as st

ID = 'C17'
RULE = 'Case = triangle / vectors / displaced triangle at sizes 1e-6..1e6; all are non-trivial.'
ASSUMPTIONS = ['Tolerances: 1e-9 relative to the natural size, larger near degeneracy (angles within 1e-6 of 0 or 180).']
SCALES = (1e-6, 1e-4, 1e-2, 1.0, 7.3, 1e3, 1e6)


def V(p):
    import geom
    return geom.Vect(*p)


def xyz(v):
    return [v.X, v.Y, v.Z]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    return math.fsum(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def norm(a):
    return math.sqrt(dot(a, a))


def near(a, b, tol):
    return all(abs(x - y) <= tol for x, y in zip(a, b))


def tri(c, ctx):
    import geom
    flat = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [c['tri']['apex'][0], c['tri']['apex'][1], 0.0]]
    ps = points(c['tri'], flat)
    k = c['rotate']
    ps = ps[k:] + ps[:k]
    flat = flat[k:] + flat[:k]
    if c['flip']:
        ps, flat = ps[::-1], flat[::-1]
    s = c['tri']['scale']
    size = s * (3 + max(abs(x) for x in c['tri']['shift']))
    t = geom.Triangle(*[V(p) for p in ps])
    ctx.nt()
    ctx.cls('scale {0}'.format(s))
    e = 1e-11 * size
    want = 0.5 * c['tri']['apex'][1] * s * s
    check(abs(t.area() - want) <= 4 * e * s + 1e-9 * want, 'area {0} instead of {1}', t.area(), want)
    n = M.apply(M.rotation(c['tri']['rot']), [0.0, 0.0, -1.0 if c['flip'] else 1.0])
    tol = 1e-9 + 20 * e / (s * c['tri']['apex'][1])
    check(near(xyz(t.normal_orth()), n, tol), 'normal {0} instead of {1}', xyz(t.normal_orth()), n)
    cen = [math.fsum(p[i] for p in ps) / 3 for i in range(3)]
    check(near(xyz(t.centroid()), cen, e), 'centroid {0} instead of {1}', xyz(t.centroid()), cen)
    sides = [s * math.dist(flat[i], flat[(i + 1) % 3]) for i in range(3)]
    check(abs(t.min_side() - min(sides)) <= 4 * e, 'shortest side {0} instead of {1}', t.min_side(), min(sides))
    # Angles from the setting in the plane.
    ang = []
    for i in range(3):
        u, v = sub(flat[(i + 1) % 3], flat[i]), sub(flat[(i + 2) % 3], flat[i])
        ang.append(math.degrees(math.atan2(norm(cross(u, v)), dot(u, v))))
    for i in range(3):
        u, v = sub(ps[(i + 1) % 3], ps[i]), sub(ps[(i + 2) % 3], ps[i])
        got = geom.Vect.get_angle_in_deg(V(u), V(v))
        check(abs(got - ang[i]) <= 1e-4 + math.degrees(100 * e / min(sides)), 'angle {0} instead of {1}', got, ang[i])
    for lim in (max(ang) * 1.01 + 0.01, max(ang) * 0.99 - 0.01, sorted(ang)[1] * 0.99, min(ang) * 0.99):
        check(bool(t.all_corners_smaller(lim)) == (max(ang) < lim), 'angles {0} smaller than {1}', ang, lim)
    q = math.fsum(x * x for x in sides) / math.sqrt(want)
    check(abs(t.is_good() - q) <= 1e-8 * q + q * 20 * e / (s * c['tri']['apex'][1]), 'quality {0} instead of {1}',
          t.is_good(), q)
    b = geom.Box.from_triangles([t])
    for i, (lo, hi) in enumerate(((b.MinX, b.MaxX), (b.MinY, b.MaxY), (b.MinZ, b.MaxZ))):
        check((lo, hi) == (min(p[i] for p in ps), max(p[i] for p in ps)), 'box of {0}', ps)
    # Equality of triangles ignores the order of corners and nothing else.
    if 1e-4 <= s <= 100:
        o = geom.Triangle(*[V(ps[i]) for i in c['perm']])
        check(t == o and o == t, 'the same corners in another order make another triangle')
        moved = [list(p) for p in ps]
        moved[c['rotate']][c['perm'][0]] += 0.01 * s
        check(not (t == geom.Triangle(*[V(p) for p in moved])), 'a moved corner is not noticed')
        moved = [list(p) for p in ps]
        moved[1][c['perm'][0]] += 0.013 * s
        moved[2][c['perm'][0]] -= 0.013 * s
        check(not (t == geom.Triangle(*[V(p) for p in moved])), 'two moved corners are not noticed')
    ts = [geom.Triangle(*[V([x + d for x, d in zip(p, sh)]) for p in ps]) for sh in c['shifts']]
    for ax in range(3):
        r = geom.Triangle.sorting_by_the_selected_axis(list(ts), ax)
        check(sorted(map(id, r)) == sorted(map(id, ts)), 'sorting lost a triangle')
        cs = [math.fsum(p[ax] for p in map(xyz, x.Points)) / 3 for x in r]
        big = 1e-11 * (size + 10)
        check(all(a <= b + big for a, b in zip(cs, cs[1:])), 'not sorted along axis {0}: {1}', ax, cs)


shift3 = st.lists(st.floats(-5, 5), min_size=3, max_size=3)
tri_case = st.fixed_dictionaries({'tri': triangle(SCALES), 'rotate': st.integers(0, 2), 'flip': st.integers(0, 1),
                                  'perm': st.permutations([0, 1, 2]).map(list),
                                  'shifts': st.lists(shift3, min_size=1, max_size=5)})


def vect(c, ctx):
    import geom
    s = c['scale']
    a, b = [s * x for x in c['a']], [s * x for x in c['b']]
    k = c['k']
    va, vb = V(a), V(b)
    ctx.nt()
    size = max(map(abs, a + b))
    e = 1e-14 * size
    check(near(xyz(va + vb), [x + y for x, y in zip(a, b)], e), 'sum of {0} and {1}', a, b)
    check(near(xyz(va - vb), sub(a, b), e), 'difference of {0} and {1}', a, b)
    check(near(xyz(va * k), [x * k for x in a], e * abs(k)), '{0} times {1}', a, k)
    check(near(xyz(k * va), [x * k for x in a], e * abs(k)), '{0} times {1}', k, a)
    check(near(xyz(va / k), [x / k for x in a], 2 * e / abs(k)), '{0} over {1}', a, k)
    check(abs(geom.Vect.dot_product(va, vb) - dot(a, b)) <= 3 * e * size, 'dot product of {0} and {1}', a, b)
    check(near(xyz(geom.Vect.cross_product(va, vb)), cross(a, b), 3 * e * size), 'cross product of {0}, {1}', a, b)
    check(near(xyz(geom.Vect.middle_point(va, vb)), [(x + y) / 2 for x, y in zip(a, b)], e), 'middle of {0} {1}', a, b)
    check(abs(va.mod() - norm(a)) <= 3 * e and abs(va.mod2() - dot(a, a)) <= 3 * e * size, 'length of {0}', a)
    check(abs(va.dist_to(vb) - math.dist(a, b)) <= 5 * e, 'distance of {0} and {1}', a, b)
    check(xyz(va) == a and xyz(vb) == b, 'an operation changed its operand')
    check([va[0], va[1], va[2]] == a and list(va.coords_tuple()) == a and va.coords_list() == a and
          va.coords_as_np().tolist() == a and xyz(geom.Vect.from_iterable(a)) == a, 'coordinates of {0}', a)
    for d in c['digits']:
        r = V(a)
        check(r.rounded_coords_tuple(d) == tuple(round(x, d) for x in a) and xyz(r) == a,
              'coordinates of {0} rounded to {1} digits', a, d)
        r.round_vect(d)
        check(xyz(r) == [round(x, d) for x in a], 'coordinates of {0} rounded to {1} digits: {2}', a, d, xyz(r))
    if norm(a) > 1e-3 * s:
        o = va.orth()
        check(abs(norm(xyz(o)) - 1) <= 1e-12 and near(xyz(o), [x / norm(a) for x in a], 1e-12), 'orth of {0}', a)
        for m in (1.0, 2.5, -0.3, 1e3):
            w = geom.Vect.get_angle_in_deg(va, V([x * m for x in a]))
            check(abs(w - (0.0 if m > 0 else 180.0)) <= 1e-4, 'angle of {0} with {1} of it: {2}', a, m, w)
        if norm(b) > 1e-3 * s:
            w = math.atan2(norm(cross(a, b)), dot(a, b))
            check(abs(geom.Vect.get_angle_in_rad(va, vb) - w) <= 1e-6, 'angle of {0} and {1}', a, b)
            check(abs(geom.Vect.angle_cos(va, vb) - math.cos(w)) <= 1e-9, 'cosine of {0} and {1}', a, b)
    # The order is lexicographic, with equality within 1e-10.
    if all(x == y or abs(x - y) > 1e-9 for x, y in zip(a, b)):
        check((va < vb) == (a < b) and (vb < va) == (b < a) and (va == vb) == (a == b), 'order of {0} and {1}', a, b)
    z = V(a)
    z[1] = 7.5
    z.X = -2.0
    check(xyz(z) == [-2.0, 7.5, a[2]] and xyz(va) == a, 'setting coordinates')


num = st.one_of(st.floats(-1, 1).map(lambda x: round(x, 9)), st.sampled_from([0.0, 1.0, -1.0, 0.5]))
v3 = st.lists(num, min_size=3, max_size=3)
vect_case = st.fixed_dictionaries({'a': v3, 'b': v3, 'scale': st.sampled_from(SCALES),
                                   'digits': st.lists(st.integers(0, 15), min_size=1, max_size=3),
                                   'k': st.sampled_from([1.0, -2.0, 0.3, 1e3, -1e-3])})


def poly_volume(faces):
    """Signed volume of a closed triangulated surface."""
    o = faces[0][0]
    return math.fsum(dot(sub(a, o), cross(sub(b, o), sub(c, o))) for a, b, c in faces) / 6


def volumes(c, ctx):
    import geom
    s = c['tri']['scale']
    flat = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [c['tri']['apex'][0], c['tri']['apex'][1], 0.0]]
    apex = [c['d'][0], c['d'][1], c['d'][2]]
    ps = points(c['tri'], flat + [apex])
    size = s * (3 + max(abs(x) for x in c['tri']['shift']))
    # Tetrahedron.
    want = s ** 3 * c['tri']['apex'][1] * abs(apex[2]) / 6
    tol = 1e-11 * size * s * s * 4
    ctx.nt()
    for p in c['perms']:
        got = geom.utils.tetrahedron_volume(*[V(ps[i]) for i in p])
        check(abs(got - want) <= tol, 'volume {0} of tetrahedron {1} instead of {2}', got, ps, want)
    # Parallel shift.
    h = c['h']
    m = points(c['tri'], [[p[0] + c['d'][0] * h, p[1] + c['d'][1] * h, h] for p in flat])
    want = 0.5 * c['tri']['apex'][1] * abs(h) * s ** 3
    got = geom.utils.displaced_triangle_volume(*[V(p) for p in ps[:3] + m])
    check(abs(got - want) <= tol, 'shifted triangle volume {0} instead of {1}', got, want)
    # Different positive heights of the corners.
    hs = [h * x for x in c['hs']]
    m = [[p[0] + 0.1 * h * t[0], p[1] + 0.1 * h * t[1], z] for p, t, z in zip(flat, c['ts'], hs)]
    u = points(c['tri'], m)
    a, b, d = flat
    na, nb, nc = m
    shell = [(a, d, b), (na, nb, nc), (a, b, nb), (a, nb, na), (b, d, nc), (b, nc, nb), (d, a, nc), (a, na, nc)]
    want = abs(poly_volume(shell)) * s ** 3
    small = abs(h) <= 0.1 * min(c['tri']['apex'][1], 0.3)
    got = geom.utils.displaced_triangle_volume(*[V(p) for p in ps[:3] + u])
    if small:
        ctx.cls('small displacement')
        check(abs(got - want) <= tol, 'displaced triangle volume {0} instead of {1}', got, want)


volumes_case = st.fixed_dictionaries({
    'tri': triangle(SCALES), 'd': st.lists(st.floats(-1, 1), min_size=3, max_size=3),
    'h': st.sampled_from([1e-3, 0.01, -0.01, 0.02, 0.5, -1.0]),
    'perms': st.lists(st.permutations([0, 1, 2, 3]).map(list), min_size=1, max_size=3),
    'hs': st.lists(st.floats(0.2, 1), min_size=3, max_size=3),
    'ts': st.lists(st.lists(st.floats(-1, 1), min_size=2, max_size=2), min_size=3, max_size=3)})


def prism(c, ctx):
    """a h + b h^2 + c h^3 is the volume of the layer of height h along the nodal normals."""
    import geom
    s = c['tri']['scale']
    flat = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [c['tri']['apex'][0], c['tri']['apex'][1], 0.0]]
    ps = points(c['tri'], flat)
    mat = M.rotation(c['tri']['rot'])
    ns = [[x, y, 1.0] for x, y in c['ns']]
    wn = [M.apply(mat, [k / norm(n) for k in n]) for n in ns]
    n = M.apply(mat, [0.0, 0.0, 1.0])
    abc = geom.utils.prizmatoid_volume_coefs(*[V(p) for p in ps + wn + [n]])
    check(len(abc) == 3 and all(isinstance(float(x), float) for x in abc), 'coefficients {0}', abc)
    ctx.nt()
    for h in c['h']:
        # Area of the section at height z, a quadratic function: Simpson's rule is exact.
        def area(z):
            q = [[p[0] + u[0] * z / s, p[1] + u[1] * z / s] for p, u in zip(flat, ns)]
            return 0.5 * s * s * ((q[1][0] - q[0][0]) * (q[2][1] - q[0][1]) - (q[1][1] - q[0][1]) * (q[2][0] - q[0][0]))
        z = h * s
        want = z / 6 * (area(0) + 4 * area(z / 2) + area(z))
        got = abc[0] * z + abc[1] * z ** 2 + abc[2] * z ** 3
        tol = 1e-8 * s ** 3 * max(1.0, abs(h)) ** 3
        check(abs(got - want) <= tol, 'layer of height {0}: volume {1} instead of {2} (coefficients {3})', z, got,
              want, abc)


prism_case = st.fixed_dictionaries({
    'tri': triangle(SCALES), 'h': st.lists(st.floats(0.01, 2), min_size=1, max_size=3),
    'ns': st.lists(st.lists(st.floats(-2, 2), min_size=2, max_size=2), min_size=3, max_size=3)})


def cells(c, ctx):
    """Cells and edges of a loaded grid."""
    from vf.inv import corners
    from vf.util import load
    m = M.build(c)
    g = load(m)
    ctx.nt(len(g.Faces) > 1)
    for f in g.Faces:
        ps = corners(f)
        t = f.get_triangle()
        check([tuple(xyz(p)) for p in t.Points] == list(ps) and t.BackRef is f, 'triangle of cell {0}', f.GloId)
        lens = [math.dist(ps[i], ps[j]) for i, j in ((0, 1), (1, 2), (2, 0))]
        got = sorted(e.len_edge() for e in f.Edges)
        check(near(got, sorted(lens), 1e-12 * max(lens)), 'edges of cell {0}: {1} instead of {2}', f.GloId, got, lens)
        e = f.max_edge_from_face()
        check(any(e is x for x in f.Edges) and e.len_edge() >= max(lens) * (1 - 1e-12), 'longest edge of cell {0}',
              f.GloId)
        cen = [math.fsum(p[i] for p in ps) / 3 for i in range(3)]
        big = max(abs(x) for p in ps for x in p) or 1.0
        check(near(f.get_center(), cen, 1e-14 * big), 'centre of cell {0}', f.GloId)


def parts():
    return [Part('triangle', tri_case, tri, 3000), Part('vect', vect_case, vect, 4000),
            Part('volumes', volumes_case, volumes, 3000), Part('prism', prism_case, prism, 3000),
            Part('box', box_case, box, 1500),
            Part('cells', M.mesh_cases(max_size=4, variables=[]), cells, 400)]
