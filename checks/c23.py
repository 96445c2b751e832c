"""C23: mesh smoothing keeps boundaries, flat surfaces and columns."""
import math
import os
import random

from vf import ice
from vf import mesh as M
from vf.core import Part, check, quiet
from vf.inv import pos
from vf.util import load, raises
from checks.c20 import flat, frame
from checks.c22 import grid_plate
from hypothesis import strategies as st

ID = 'C23'
RULE = ('Case = flat, curved or extruded mesh and smoothing parameters; non-trivial when an inner node '
        'exists and moves (regular grids: exists; columns: ice is present).')
ASSUMPTIONS = ['The eigenvalue gap at the threshold is not closer than 1e-6 (curved surfaces).']


def smooth(g, n, fix=True, marked=False, **kw):
    from smoothing import NullSpaceSmoothing
    with quiet():
        if fix or marked:
            g.mark_all_fixed_nodes()
            rim = borders(g)
            check({id(x) for x in g.Nodes if x.border} == rim, 'marked nodes are not the border nodes')
            check(g.number_of_border_nodes == len(rim), '{0} border nodes counted instead of {1}',
                  g.number_of_border_nodes, len(rim))
        NullSpaceSmoothing(g, n, fix_boundary_nodes=fix, **kw).smoothing()


def borders(g):
    return {id(n) for e in g.Edges if len(e.Faces) == 1 for n in e.Nodes}


def untouched(g, before, hi):
    check(frame(g) == before and [f['Hi'] for f in g.Faces] == hi,
          'smoothing changed links, numbers, zones or data')


def model_step(g, st_, eps, fixed):
    """New positions after one iteration; None when the threshold is ambiguous."""
    import numpy as np
    out = {}
    for n in g.Nodes:
        p = np.array([float(x) for x in pos(n)])
        if id(n) in fixed:
            out[id(n)] = p
            continue
        A, d, w = np.zeros((3, 3)), np.zeros(3), 0.0
        for f in n.Faces:
            a, b, c = (np.array([float(x) for x in pos(x)]) for x in f.Nodes)
            nn = np.cross(b - a, c - a)
            s = np.linalg.norm(nn)
            nn = nn / s
            A += s * np.outer(nn, nn)
            d += (a + b + c) / 3 - p
            w += s
        d /= len(n.Faces)
        ev, vec = np.linalg.eigh(A / w)
        top = max(ev)
        if any(abs(x - eps * top) < 1e-6 * top for x in ev):
            return None
        shift = np.zeros(3)
        for x, v in zip(ev, vec.T):
            if x < eps * top:
                shift += st_ * np.dot(v, d) * v
        out[id(n)] = p + shift
    return out


def flat_patch(c, ctx):
    m = flat(c)
    g = load(m)
    before, hi = frame(g), [f['Hi'] for f in g.Faces]
    place = {id(n): pos(n) for n in g.Nodes}
    rim = borders(g)
    up = ice.tri_normal(*(m.points[i] for i in m.faces[0]))
    smooth(g, c['n'], st=c['st'], epsilon=c['eps'])
    untouched(g, before, hi)
    size = max(math.dist(p, m.points[0]) for p in m.points)
    far = max(abs(x) for p in m.points for x in p) + size
    for n in g.Nodes:
        p, q = place[id(n)], pos(n)
        if id(n) in rim:
            check(tuple(p) == tuple(q), 'border node {0} moved to {1}', p, q)
        check(abs(ice.dot(ice.sub(q, p), up)) <= 1e-10 * far, 'node {0} left the plane', p)
        check(math.dist(p, q) <= size, 'node {0} flew away', p)
    moved = [n for n in g.Nodes if math.dist(place[id(n)], pos(n)) > 1e-9 * size]
    ctx.nt(bool(moved))


def by_model(c, ctx):
    m = M.build(c['mesh'])
    g = load(m)
    before, hi = frame(g), [f['Hi'] for f in g.Faces]
    fixed = borders(g) if c['fix'] else set()
    size = max(math.dist(p, m.points[0]) for p in m.points)
    far = max(abs(x) for p in m.points for x in p) + size
    total = 0
    # All iterations of one call equal single iterations one after another.
    whole = load(m)
    old = set(os.listdir('.'))
    smooth(whole, c['n'], fix=bool(c['fix']), marked=bool(c['mark']), st=c['st'], epsilon=c['eps'],
           print_intermediate_steps=bool(c['dump']))
    last = [pos(n) for n in whole.Nodes]
    dumps = sorted(set(os.listdir('.')) - old)
    check(dumps == ['NullSpace_smoothing_{0:03d}.dat'.format(i) for i in range(c['n'] if c['dump'] else 0)],
          'grids of {0} iterations: {1}', c['n'], dumps)
    for it in range(c['n']):
        want = model_step(g, c['st'], c['eps'], fixed)
        old = {id(n): pos(n) for n in g.Nodes}
        smooth(g, 1, fix=bool(c['fix']), marked=bool(c['mark']), st=c['st'], epsilon=c['eps'])
        untouched(g, before, hi)
        if c['dump']:
            # The grid after every iteration is stored.
            g.store('now.dat')
            a, b = M.parse_dat('now.dat'), M.parse_dat(dumps[it])
            check(len(a.cells()) == len(b.cells()) and all(
                x[0] == y[0] and x[2] == y[2] and math.dist(p, q) <= 1e-9 * size + 1e-12 * far
                for x, y in zip(a.cells(), b.cells()) for p, q in zip(x[1], y[1])),
                'the grid stored after iteration {0} is another one', it)
        for n in g.Nodes:
            if id(n) in fixed:
                check(tuple(old[id(n)]) == tuple(pos(n)), 'border node moved')
        if want is None:
            ctx.cls('threshold ambiguous')
            return
        for n in g.Nodes:
            check(math.dist(want[id(n)], pos(n)) <= 1e-7 * size + 1e-12 * far,
                  'node {0} moved to {1}, expected {2}', old[id(n)], pos(n), list(want[id(n)]))
            total += math.dist(old[id(n)], pos(n)) > 1e-9 * size
    for n, q in zip(g.Nodes, last):
        check(math.dist(pos(n), q) <= 1e-9 * size + 1e-12 * far,
              'after {0} iterations in one call a node is at {1}, one by one at {2}', c['n'], q, pos(n))
    ctx.nt(total > 0)
    ctx.cls('borders fixed' if c['fix'] else 'borders free')


def regular(c, ctx):
    m = grid_plate(c['k'][0], c['k'][1])
    n = len(m.faces)
    m.vars, m.title, m.zone, m.znames, m.data = [], 't', [0] * n, ['z'], {}
    r = random.Random(c['seed'])
    inner = {i for i, (x, y, _) in enumerate(m.points) if 0 < x < c['k'][0] and 0 < y < c['k'][1]}
    sx, sy = c['sx'], c['sy']
    base = [[x * sx, y * sy, 0.0] for x, y, _ in m.points]
    amp = c['amp'] * 0.01 * min(sx, sy)
    m.points = [[x + r.uniform(-amp, amp), y + r.uniform(-amp, amp), 0.0] if i in inner else [x, y, 0.0]
                for i, (x, y, _) in enumerate(base)]
    mat = M.rotation(c['rot'])
    m.points, base = ([M.apply(mat, p) for p in ps] for ps in (m.points, base))
    g = load(m)
    nodes = ice.loaded_order(m, g)
    size = max(sx, sy) * max(c['k'])

    def off():
        return max(math.dist(p, pos(x)) for p, x in zip(base, nodes))
    if not amp:
        smooth(g, 3, st=c['st'])
        check(off() <= 1e-12 * size, 'a regular grid moved by {0}', off())
    else:
        # The border is regular, so the fixed point is the regular grid.
        d0 = off()
        smooth(g, 60, st=0.5)
        check(off() <= 0.5 * d0, 'distance to the regular grid {0} became {1}', d0, off())
    ctx.nt(bool(inner))
    ctx.cls('jittered' if amp else 'exact')


def column_mesh(c):
    """Extruded profile: points[(level, k)], outward oriented."""
    r = random.Random(c['seed'])
    k = c['k']
    if c['profile'] == 'wall':
        prof = [[i * 1.0, 0.0] for i in range(k, -1, -1)]
        closed = False
    elif c['profile'] == 'arc':
        prof = [[math.cos(math.pi * i / k), 0.7 * math.sin(math.pi * i / k)] for i in range(k + 1)]
        closed = False
    else:
        k = max(k, 6)
        prof = [[1.3 * math.cos(2 * math.pi * i / k), math.sin(2 * math.pi * i / k)] for i in range(k)]
        closed = True
    prof = [[c['scale'] * x + c['shift'] for x in p] for p in prof]
    zs = [0.0]
    for _ in range(c['levels'] - 1):
        zs.append(zs[-1] + c['scale'] * r.uniform(0.4, 1.0))
    zs = [z - 0.3 for z in zs]
    m = M.Mesh()
    n = len(prof)
    m.points = [[x, y, z] for z in zs for x, y in prof]
    m.faces = []
    for j in range(len(zs) - 1):
        for i in range(n if closed else n - 1):
            a, b = j * n + i, j * n + (i + 1) % n
            d, e = a + n, b + n
            m.faces += [(a, b, e), (a, e, d)] if r.random() < 0.5 else [(a, b, d), (b, e, d)]
    r.shuffle(m.faces)
    m.vars, m.title = [], 't'
    m.zone = [r.randrange(c['nz']) for _ in m.faces]
    m.znames = ['z{0}'.format(i) for i in range(c['nz'])]
    m.data = {}
    return m, n, zs


def columns(c, ctx):
    m, n, zs = column_mesh(c)
    ice.put_ice(m, c['ice'])
    g = load(m)
    nodes = ice.loaded_order(m, g)
    before = frame(g)
    os.mkdir('o')
    o = dict(c['opts'], remesh_pseudo_2d_oz=True)
    with quiet():
        ice.run(g, o, outdir='o/', verbose=True)
    check(frame(g) == before, 'remeshing changed links, numbers, zones or data')

    def judge(ps, when):
        for i in range(n):
            col = [ps[j * n + i] for j in range(len(zs))]
            check([p[2] for p in col] == zs, '{0}: heights of column {1}: {2} instead of {3}', when, i,
                  [p[2] for p in col], zs)
            check(len({(float(p[0]), float(p[1])) for p in col}) == 1, '{0}: column {1} is not straight: {2}',
                  when, i, col)
    ps = [pos(x) for x in nodes]
    if c['opts']['remesh_nsteps_max'] > 0:
        judge(ps, 'result')
    # Every step.
    where = {id(x): i for i, x in enumerate(nodes)}
    for f in sorted(os.listdir('o')):
        d = M.parse_dat('o/' + f)
        q = [None] * len(nodes)
        for z, dz in zip(g.Zones, d.zones):
            for x, p in zip(z.Nodes, dz.nodes):
                q[where[id(x)]] = p
        judge(q, f)
    ctx.cls('steps {0}'.format(len(os.listdir('o'))), c['profile'])
    if c['profile'] == 'wall' and c['ice']['mode'] == 'uniform' and not c['opts'].get('remesh_nss_steps'):
        h = m.data['Hi'][0] * (len(os.listdir('o')) > 0)
        for p, q in zip(m.points, ps):
            check(math.dist((p[0], p[1] + h, p[2]), q) <= 1e-9 * (abs(c['shift']) + c['scale'] * 10),
                  'uniform ice on a wall: {0} moved to {1}', p, q)
        ctx.cls('uniform wall')
    moved = any(math.dist(p, q) > 1e-9 * c['scale'] for p, q in zip(m.points, ps))
    if any(m.data['Hi']) and c['opts']['remesh_nsteps_max'] > 0 and c['ice']['mode'] != 'few':
        check(moved or c['ice']['mode'] == 'patch', 'columns do not move')
    ctx.nt(moved)


def refused(c, ctx):
    if c['how'] == 'solid':
        m = M.build(c['mesh'])
        xy = {}
        for p in m.points:
            xy.setdefault((int(p[0] * 10 ** 20), int(p[1] * 10 ** 20)), []).append(p)
        if len({len(v) for v in xy.values()}) == 1 and len(next(iter(xy.values()))) > 1:
            ctx.skip('columns by chance')
            return
    else:
        m, n, zs = column_mesh(c['cols'])
        i = c['i'] % len(m.points)
        if c['how'] == 'bent':
            # One node of one column stands aside.
            m.points[i] = [m.points[i][0] + c['aside'], m.points[i][1], m.points[i][2]]
        else:
            # One node more in one column: a cell is divided at half of a vertical edge.
            q = list(m.points[i if i < n * (len(zs) - 1) else i - n])
            j = [k for k, p in enumerate(m.points) if p[:2] == q[:2]]
            a, b = j[0], j[1]
            new = len(m.points)
            m.points.append([q[0], q[1], (m.points[a][2] + m.points[b][2]) / 2])
            fs, zone = [], []
            for f, z in zip(m.faces, m.zone):
                if a in f and b in f:
                    fs += [tuple(new if x == a else x for x in f), tuple(new if x == b else x for x in f)]
                    zone += [z, z]
                else:
                    fs.append(f)
                    zone.append(z)
            m.faces, m.zone = fs, zone
    ice.put_ice(m, c['ice'])
    g = load(m)
    with quiet():
        bad = raises(ice.run, g, {'remesh_nsteps_min': 1, 'remesh_nsteps_max': 2,
                                  'remesh_pseudo_2d_oz': True})
    check(bad, 'a grid without equal columns ({0}) is accepted', c['how'])
    ctx.nt()
    ctx.cls(c['how'])


ST = [0.05, 0.2, 0.5]
EPS = [0.003, 0.01, 0.1]


@st.composite
def case_flat(draw):
    return {'mesh': draw(ice.cases(bases=['plate'], max_comps=1, max_size=6, scales=(1.0, 100.0, 1e-3, 5e3))),
            'jit': draw(st.sampled_from([0, 10, 20])), 'jseed': draw(st.integers(0, 99)),
            'n': draw(st.integers(0, 4)), 'st': draw(st.sampled_from(ST)), 'eps': draw(st.sampled_from(EPS))}


@st.composite
def case_model(draw):
    return {'mesh': draw(ice.cases(max_size=4, scales=(1.0, 100.0, 1e-3, 5e3))),
            'mark': draw(st.integers(0, 1)),
            'dump': draw(st.sampled_from([0, 0, 1])), 'fix': draw(st.sampled_from([1, 1, 0])),
            'n': draw(st.integers(1, 4)), 'st': draw(st.sampled_from(ST)), 'eps': draw(st.sampled_from(EPS))}


@st.composite
def case_regular(draw):
    return {'k': [draw(st.integers(2, 5)), draw(st.integers(2, 4))], 'seed': draw(st.integers(0, 99)),
            'sx': draw(st.sampled_from([1.0, 0.3, 40.0])), 'sy': draw(st.sampled_from([1.0, 2.0])),
            'amp': draw(st.sampled_from([0, 0, 5, 20])), 'rot': draw(st.sampled_from([0, 2, 3])),
            'st': draw(st.sampled_from(ST))}


@st.composite
def cols(draw):
    return {'profile': draw(st.sampled_from(['wall', 'arc', 'ring'])), 'k': draw(st.integers(2, 9)),
            'levels': draw(st.integers(2, 5)), 'seed': draw(st.integers(0, 999)),
            'scale': draw(st.sampled_from([1.0, 0.1, 20.0, 1e-4])), 'shift': draw(st.sampled_from([0.0, 0.7, -13.3])),
            'nz': draw(st.integers(1, 3))}


@st.composite
def case_cols(draw):
    c = draw(cols())
    c['ice'] = draw(ice.ice(modes=['uniform', 'uniform', 'random', 'linear', 'patch', 'few', 'zero']))
    c['opts'] = draw(ice.options(nsteps=[0, 1, 2, 3]))
    return c


@st.composite
def case_refused(draw):
    return {'how': draw(st.sampled_from(['solid', 'bent', 'uneven'])),
            'mesh': draw(ice.cases(bases=['plate', 'sphere', 'torus', 'octa', 'fan'], max_comps=1)),
            'cols': draw(cols()), 'i': draw(st.integers(0, 60)),
            'aside': draw(st.sampled_from([1e-3, 1e-5, -1e-7, 1e-8])), 'ice': draw(ice.ice())}


def parts():
    return [Part('flat', case_flat(), flat_patch, 120, rule='a node moved'),
            Part('model', case_model(), by_model, 120, rule='a node moved'),
            Part('regular', case_regular(), regular, 60, rule='an inner node'),
            Part('columns', case_cols(), columns, 150, rule='a node moved'),
            Part('refused', case_refused(), refused, 60, rule='always')]
