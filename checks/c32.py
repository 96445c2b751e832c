"""C32: the refine tool inserts contact points without losing surface."""
import os
import random

from vf import mesh as M
from vf.core import Part, check, quiet
from vf.util import load, raises, run_script
from hypothesis import strategies as st

ID = 'C32'
RULE = ('Case = grid whose cells touch, pierce or overlap in a generated way; non-trivial when a cell was '
        'subdivided (clean part: more than two cells).')
ASSUMPTIONS = ['Cells do not cover each other within one plane, and no more than two sheets meet along a line.',
               'Neighbouring cells of clean grids are either in one plane up to rounding or at a clear angle.',
               'Which points two cells have in common is taken from the intersection code, which C15 decides.']


def refine(src, dst):
    import refine as tool
    tool.refine_grid(src, dst)


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def mod(a):
    return dot(a, a) ** 0.5


def size(t):
    return max(mod(sub(t[i], t[i - 1])) for i in range(3))


def bary(t, x):
    """Barycentric coordinates of the projection and the distance from the plane."""
    n = M.tri_cross(*t)
    nn = dot(n, n)
    w = [dot(M.tri_cross(x, t[(i + 1) % 3], t[(i + 2) % 3]), n) / nn for i in range(3)]
    return w, abs(dot(sub(x, t[0]), n)) / nn ** 0.5


def place(t, x):
    """0 outside, 1 corner, 2 edge, 3 inside, None not decided by a margin; and the edge."""
    w, d = bary(t, x)
    if d > 1e-6 * size(t) or min(w) < -1e-6:
        return 0, None
    if d > 1e-11 * size(t):
        return None, None
    small = [i for i in range(3) if abs(w[i]) < 1e-12]
    if any(1e-12 <= abs(v) < 1e-6 for v in w):
        return None, None
    return 3 - len(small), (small[0] if len(small) == 1 else None)


def numbered(m):
    m.vars = [v for v in m.vars if v != 'Id'] + ['Id']
    m.data['Id'] = [float(k) for k in range(len(m.faces))]
    return m


def surface(a, b):
    """File b covers the surface of file a cell by cell; returns {cell: its children}."""
    check(b.title == a.title and b.vars == a.vars, 'title or variables changed: {0} {1} -> {2} {3}', a.title,
          a.vars, b.title, b.vars)
    check([z.name for z in a.zones] == [z.name for z in b.zones], 'zones {0} became {1}',
          [z.name for z in a.zones], [z.name for z in b.zones])
    for z in b.zones:
        used = {i for f in z.faces for i in f}
        check(len(used) == len(z.nodes), 'zone {0} has nodes of no cell', z.name)
    kids = {}
    for zi, cs, data in b.cells():
        kids.setdefault(data['Id'], []).append((zi, cs, data))
    for zi, cs, data in a.cells():
        k = data['Id']
        ks = kids.get(k, [])
        check(ks, 'cell {0} is lost', cs)
        for zj, ds, dat in ks:
            check(zj == zi, 'part of a cell of zone {0} is in zone {1}', zi, zj)
            check(all(M.same_float(dat[v], data[v]) for v in a.vars), 'data of a cell {0} became {1}', data, dat)
        if len(ks) == 1:
            check(M.cyclic(ks[0][1]) == M.cyclic(cs), 'cell {0} became {1}', cs, ks[0][1])
            continue
        n = M.tri_cross(*cs)
        h = size(cs)
        total = 0.0
        for _, ds, _ in ks:
            for x in ds:
                w, d = bary(cs, x)
                check(d <= 1e-8 * h and min(w) > -1e-8, 'corner {0} of a part is outside its cell {1}', x, cs)
            s = dot(M.tri_cross(*ds), n)
            check(s > 0, 'part {0} of cell {1} is degenerate or turned over', ds, cs)
            total += s
        check(abs(total - dot(n, n)) <= 1e-7 * dot(n, n), 'parts of cell {0} cover {1} of its area', cs,
              total / dot(n, n))
        # Parts fit together: inner edges are passed once in each direction.
        ed = {}
        for _, ds, _ in ks:
            for i in range(3):
                ed[(ds[i], ds[(i + 1) % 3])] = ed.get((ds[i], ds[(i + 1) % 3]), 0) + 1
        for (p, q), c in ed.items():
            check(c == 1, 'parts of cell {0} overlap', cs)
            if (q, p) not in ed:
                on = [i for i in range(3) if abs(bary(cs, p)[0][i]) < 1e-7 and abs(bary(cs, q)[0][i]) < 1e-7]
                check(on, 'parts of cell {0} do not fit together', cs)
    check(len(kids) == len(a.cells()), 'cells appeared from nowhere')
    old = {x for _, cs, _ in a.cells() for x in cs}
    new = {x for _, cs, _ in b.cells() for x in cs}
    check(old <= new, 'nodes {0} are lost', sorted(old - new)[:3])
    return {k: [x[1] for x in v] for k, v in kids.items()}


def both(m, ctx):
    """Refine the mesh; returns the model of input and of output files."""
    g = load(m)
    g.store('a.dat')
    with open('a.dat', 'rb') as f:
        before = f.read()
    refine('a.dat', 'b.dat')
    with open('a.dat', 'rb') as f:
        check(f.read() == before, 'the input grid was modified')
    with open('b.dat', 'rb') as f:
        out = f.read()
    # The other time as a program.
    if len(m.faces) < 500:
        with quiet():
            run_script('refine.py', ['a.dat', 'b2.dat'] + (['-v'] if len(m.faces) % 2 else []))
        with open('b2.dat', 'rb') as h:
            check(out == h.read(), 'two runs on one grid differ')
    try:
        b = M.parse_dat('b.dat')
    except M.BadFile as e:
        check(False, 'the refined grid is not a valid file: {0}', e)
    import gsu
    g2 = gsu.Grid()
    g2.load('b.dat')
    check(len(g2.Faces) == len(b.cells()), 'the refined grid does not load')
    return M.parse_dat('a.dat'), b, before, out


def clean(c, ctx):
    m = numbered(M.build(c))
    if any(M.tri_area(*m.corners(f)) < 1e-3 * size(m.corners(f)) ** 2 for f in range(len(m.faces))):
        ctx.skip('sliver')
        return
    a, b, before, out = both(m, ctx)
    ctx.nt(len(m.faces) > 2)
    ctx.cls('zones', len(a.zones))
    surface(a, b)
    check(out == before, 'a grid without contacts changed: {0} cells became {1}', len(a.cells()), len(b.cells()))


def contacts(a):
    """{cell: points it has in common with others} by asking the intersection code pair by pair."""
    import geom
    cells = [(d['Id'], cs) for _, cs, d in a.cells()]
    ts = [geom.Triangle(*[geom.Vect(*p) for p in cs]) for _, cs in cells]
    pts = {k: [] for k, _ in cells}
    box = [([min(p[i] for p in cs) for i in range(3)], [max(p[i] for p in cs) for i in range(3)])
           for _, cs in cells]
    for i in range(len(ts)):
        for j in range(len(ts)):
            if i != j and all(box[i][0][k] <= box[j][1][k] + 1e-9 and box[j][0][k] <= box[i][1][k] + 1e-9
                              for k in range(3)):
                for v in ts[i].intersection_with_triangle(ts[j]):
                    x = (v.X, v.Y, v.Z)
                    for n in (i, j):
                        old = pts[cells[n][0]]
                        if all(mod(sub(x, y)) >= 1e-10 for y in old):
                            old.append(x)
    return cells, pts


def touch(c, ctx):
    m = numbered(scene(c))
    a, b, before, out = both(m, ctx)
    kids = surface(a, b)
    cells, pts = contacts(a)
    new = {}
    for k, cs in cells:
        at = [(place(cs, x), x) for x in pts[k]]
        if any(p[0] is None for p, _ in at):
            ctx.cls('contact not decided by a margin')
            return
        new[k] = [(p, x) for p, x in at if p[0] in (2, 3)]
    corner = {k: set(cs) for k, cs in cells}
    for k, cs in cells:
        mine = new[k]
        for j, _ in cells:
            if j != k and corner[j] & corner[k] and \
                    any(all(mod(sub(x, y)) > 1e-9 for _, y in mine) for _, x in new[j]):
                break
        else:
            n = len(kids[k])
            if not mine:
                # A neighbour across an edge may have cut it.
                own = {x for t in kids[k] for x in t} - corner[k]
                if not own:
                    check(n == 1, 'cell {0} without contacts was divided into {1}', cs, n)
                continue
            kinds = tuple(sorted(p[0] for p, _ in mine))
            same = len({p[1] for p, _ in mine}) == 1
            want = {(3,): 3, (2,): 2, (2, 2): 3 if same else 0}.get(kinds, 0)
            ctx.cls('points {0}{1}'.format(kinds, ' of one edge' if kinds == (2, 2) and same else ''))
            if want:
                ctx.nt()
                check(n == want, 'cell {0} touched at {1} was divided into {2} instead of {3}', cs,
                      [x for _, x in mine], n, want)
                for _, x in mine:
                    check(any(mod(sub(x, y)) <= 1e-9 for t in kids[k] for y in t),
                          'contact {0} of cell {1} did not become a node', x, cs)


def overlap(t, u):
    """Two triangles of one plane with an area in common."""
    n = M.tri_cross(*t)
    if any(abs(dot(sub(x, t[0]), n)) > 1e-6 * mod(n) for x in u):
        return False
    poly = [list(x) for x in u]
    for i in range(3):
        a, side = t[i], M.tri_cross([0.0] * 3, n, sub(t[(i + 1) % 3], t[i]))
        out = []
        for j in range(len(poly)):
            p, q = poly[j - 1], poly[j]
            f, g = dot(sub(p, a), side), dot(sub(q, a), side)
            if (f > 0) != (g > 0):
                out.append([x + (y - x) * f / (f - g) for x, y in zip(p, q)])
            if g > 0:
                out.append(q)
        poly = out
    return sum(M.tri_area(poly[0], poly[i], poly[i + 1]) for i in range(1, len(poly) - 1)) > 1e-9 * mod(n)


def scene(c):
    """Plate in a coordinate plane with dyadic coordinates, touched by spikes and hanging corners."""
    m = M.Mesh()
    n, k = c['n'], c['k']
    ps, fs = M._plate(n, k)
    m.points = [list(p) for p in ps]
    m.faces = list(fs)
    m.zone = [f * c['nz'] // len(fs) for f in range(len(fs))]
    for s in c['spikes']:
        if s['kind'] == 'inside':
            t = fs[s['i'] % len(fs)]
            u, v = s['u'] / 8.0, s['v'] / 8.0
            if u + v >= 1:
                u, v = 1 - v, 1 - u
            if u + v >= 1:
                u = v = 0.375
            p = [ps[t[0]][i] + u * (ps[t[1]][i] - ps[t[0]][i]) + v * (ps[t[2]][i] - ps[t[0]][i])
                 for i in range(3)]
            tri = [p, [p[0], p[1], p[2] + s['h']], [p[0] + s['dx'], p[1] + 0.25, p[2] + s['h']]]
        elif s['kind'] == 'edge':
            t = fs[s['i'] % len(fs)]
            a, b = ps[t[s['e']]], ps[t[(s['e'] + 1) % 3]]
            p = [a[i] + s['u'] / 8.0 * (b[i] - a[i]) for i in range(3)]
            tri = [p, [p[0], p[1], p[2] + s['h']], [p[0] + s['dx'], p[1] + 0.25, p[2] + s['h']]]
        else:
            # Hanging corners on a border edge of the plate, from below.
            x = float(s['i'] % n)
            p = [x + s['u'] / 8.0, 0.0, 0.0]
            q = [x + s['v'] / 8.0, 0.0, 0.0] if s['kind'] == 'two' and s['u'] != s['v'] else None
            tri = [p, [x + 0.25, -1.0 - s['i'], s['h']], q or [x + 0.75, -1.0 - s['i'], s['h']]]
            if s.get('flat'):
                tri = [[x[0], x[1], 0.0] for x in tri]
        if tri[0] not in m.points and M.tri_area(*tri) > 1e-6 and \
                not any(overlap(tri, [m.points[i] for i in f]) for f in m.faces):
            base = []
            for x in tri:
                if x in m.points:
                    base.append(m.points.index(x))
                else:
                    m.points.append(x)
                    base.append(len(m.points) - 1)
            m.faces.append(tuple(base) if s['turn'] else (base[0], base[2], base[1]))
            m.zone.append(s['z'] % (c['nz'] + 1))
    used = sorted(set(m.zone))
    m.zone = [used.index(z) for z in m.zone]
    m.znames = ['z{0}'.format(z) for z in used]
    ax = c['axes']
    m.points = [[p[ax[i]] * c['scale'] + c['shift'][i] for i in range(3)] for p in m.points]
    m.vars = ['T']
    m.data['T'] = [float(7 * f % 5) for f in range(len(m.faces))]
    m.title = 'g'
    return m


@st.composite
def spike(draw, far=30):
    return {'kind': draw(st.sampled_from(['inside', 'inside', 'edge', 'edge', 'hang', 'two'])),
            'i': draw(st.integers(far - 30, far)), 'e': draw(st.integers(0, 2)), 'u': draw(st.integers(1, 7)),
            'v': draw(st.integers(1, 7)), 'h': draw(st.sampled_from([0.5, 1.0, -0.75, 2.0])),
            'dx': draw(st.sampled_from([0.25, 0.5, -0.5])), 'turn': draw(st.integers(0, 1)),
            'z': draw(st.integers(0, 3)), 'flat': draw(st.sampled_from([1, 0, 1]))}


@st.composite
def touch_case(draw, large=0):
    """Large plates have more than a thousand cells and are touched at the last of them."""
    far = 2 * large * large - 1 if large else 30
    return {'n': large or draw(st.integers(1, 4)), 'k': large or draw(st.integers(1, 3)), 'nz': draw(st.integers(1, 3)),
            'spikes': draw(st.lists(spike(far), min_size=4 if large else 1, max_size=8 if large else 4)),
            'axes': draw(st.sampled_from([[0, 1, 2], [2, 0, 1], [1, 2, 0], [1, 0, 2]])),
            'scale': draw(st.sampled_from([1.0, 0.125, 16.0, 2.0 ** -9, 2.0 ** -13])),
            'shift': draw(st.sampled_from([[0.0, 0.0, 0.0], [-4.0, 8.0, 0.5]]))}


def mess(c, ctx):
    """Arbitrary intersecting cells: whatever is divided, the surface stays."""
    m = M.build(c['mesh'])
    n0, p0 = len(m.faces), len(m.points)
    s = max(1e-9, max(max(p) for p in m.points) - min(min(p) for p in m.points))
    for t in c['extra']:
        r = random.Random(t)
        ps = [[s * r.uniform(-1, 1) for _ in range(3)] for _ in range(3)]
        at = m.points[c['at'] % p0]
        ps = [[x + y for x, y in zip(p, at)] for p in ps]
        if any(overlap(ps, m.corners(f)) for f in range(len(m.faces))):
            continue
        if M.tri_area(*ps) > 1e-2 * size(ps) ** 2:
            m.points += ps
            m.faces.append((len(m.points) - 3, len(m.points) - 2, len(m.points) - 1))
            m.zone.append(0)
    m.vars = ['Hi']
    m.data = {'Hi': [0.5 * k for k in range(len(m.faces))]}
    m = numbered(m)
    if any(M.tri_area(*m.corners(f)) < 1e-3 * size(m.corners(f)) ** 2 for f in range(len(m.faces))):
        ctx.skip('sliver')
        return
    a, b, before, out = both(m, ctx)
    kids = surface(a, b)
    ctx.cls('extra', len(m.faces) - n0)
    ctx.nt(any(contacts(a)[1].values()))
    ctx.cls('divided' if any(len(x) > 1 for x in kids.values()) else 'not divided')


@st.composite
def mess_case(draw):
    return {'mesh': draw(M.mesh_cases(max_size=2, max_comps=1, max_zones=2, drop=False, scales=(1.0,),
                                      jitter=False)),
            'at': draw(st.integers(0, 30)),
            'extra': draw(st.lists(st.integers(0, 2 ** 30), min_size=1, max_size=4))}


def refusal(c, ctx):
    ctx.nt()
    if c['dir']:
        os.makedirs(c['name'], exist_ok=True)
    check(raises(refine, c['name'], 'out.dat'), 'a missing grid file {0!r} was accepted', c['name'])
    check(not os.path.exists('out.dat'), 'a grid was written for a missing file')


def parts():
    clean_case = M.mesh_cases(max_size=3, max_comps=2, max_zones=3, scales=(1.0, 0.37, 20.0), flip=True)
    return [Part('clean', clean_case, clean, 60, rule='more than two cells'),
            Part('touch', touch_case(), touch, 220, rule='a cell touched at one point or twice on one edge'),
            Part('large', touch_case(23), touch, 1, rule='a cell touched at one point or twice on one edge'),
            Part('mess', mess_case(), mess, 120, rule='cells have points in common'),
            Part('refusal', st.fixed_dictionaries({'name': st.sampled_from(['no.dat', 'x/y.dat', 'd.dat']),
                                                   'dir': st.integers(0, 1)}), refusal, 6)]
