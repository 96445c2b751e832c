"""C21: remeshing commutes with rigid motions and ignores numbering and zones."""
import math
import random

from vf import ice
from vf import mesh as M
from vf.core import Part, check, quiet
from vf.inv import pos
from hypothesis import strategies as st

ID = 'C21'
RULE = ('Case = iced mesh, options with a fixed step count and a transformation; two runs are '
        'compared; non-trivial when a node moved.')
ASSUMPTIONS = ['Smooth surfaces (mean normals within 75 degrees of the cells\' normals), ice thinner than '
               '0.15 of the shortest side.']
TOL = 1e-6


def sized(m):
    return max(math.dist(a, m.points[0]) for a in m.points)


def result(m, opts, ctx):
    g = ice.load(m)
    nodes = ice.loaded_order(m, g)
    if any(n is None for n in nodes):
        return None
    with quiet():
        ice.run(g, opts)
    return [pos(n) for n in nodes]


def start(c, ctx):
    m = M.build(c['mesh'])
    if not ice.smooth(m.points, m.faces):
        ctx.skip('sharp surface')
        return None
    ice.put_ice(m, c['ice'])
    return m


def compare(a, b, tol, what):
    for k, (p, q) in enumerate(zip(a, b)):
        check(math.dist(p, q) <= tol, '{0}: node {1} is at {2}, expected {3}', what, k, q, p)


def motion(c, ctx):
    m = start(c, ctx)
    if m is None:
        return
    r1 = result(m, c['opts'], ctx)
    mat, k, sh = M.rotation(c['rot']), c['k'], c['shift']
    m2 = M.build(c['mesh'])
    m2.vars, m2.data = m.vars, dict(m.data)

    def move(p):
        return tuple(k * x + s for x, s in zip(M.apply(mat, p), sh))
    m2.points = [list(move(p)) for p in m.points]
    m2.data['Hi'] = [k * h for h in m.data['Hi']]
    r2 = result(m2, c['opts'], ctx)
    if r1 is None or r2 is None:
        ctx.skip('merged nodes')
        return
    size = sized(m2)
    compare([move(p) for p in r1], r2, TOL * size, 'moved grid')
    ctx.nt(any(tuple(p) != tuple(q) for p, q in zip(m.points, r1)))
    ctx.cls('rotated' if c['rot'] else 'not rotated', 'scaled' if k != 1.0 else 'not scaled')


def numbering(c, ctx):
    m = start(c, ctx)
    if m is None:
        return
    r1 = result(m, c['opts'], ctx)
    r = random.Random(c['seed'])
    n = len(m.faces)
    order = list(range(n))
    r.shuffle(order)
    names = list(range(len(m.points)))
    r.shuffle(names)                      # old point -> new number
    m2 = M.Mesh()
    m2.points = [None] * len(names)
    for o, k in enumerate(names):
        m2.points[k] = m.points[o]
    # The volume that steers redistribution depends on the first corner in higher order only.
    cyc = c['opts']['remesh_nsteps_max'] == 1 or c['opts'].get('remesh_rest_volume_redistr') is False
    m2.faces = []
    for f in order:
        t = tuple(names[i] for i in m.faces[f])
        k = r.randrange(3) if cyc else 0
        m2.faces.append(t[k:] + t[:k])
    nz = c['nz']
    m2.zone = [r.randrange(nz) for _ in range(n)]
    m2.znames = ['z{0}'.format(i) for i in range(nz)]
    m2.vars, m2.title = m.vars, m.title
    m2.data = {v: [m.data[v][f] for f in order] for v in m.vars}
    r2 = result(m2, c['opts'], ctx)
    if r1 is None or r2 is None:
        ctx.skip('merged nodes')
        return
    compare(r1, [r2[names[i]] for i in range(len(names))], TOL * sized(m), 'renumbered grid')
    ctx.nt(any(tuple(p) != tuple(q) for p, q in zip(m.points, r1)))
    ctx.cls('first corners changed' if cyc else 'first corners kept')


def components(c, ctx):
    m = start(c, ctx)
    if m is None:
        return
    par = list(range(len(m.points)))

    def root(i):
        while par[i] != i:
            i = par[i]
        return i
    for f in m.faces:
        for i in f[1:]:
            par[root(f[0])] = root(i)
    parts = {}
    for k, f in enumerate(m.faces):
        parts.setdefault(root(f[0]), []).append(k)
    r1 = result(m, c['opts'], ctx)
    if r1 is None:
        ctx.skip('merged nodes')
        return
    for fs in parts.values():
        pts = sorted({i for k in fs for i in m.faces[k]})
        new = {o: k for k, o in enumerate(pts)}
        s = M.Mesh()
        s.points = [m.points[i] for i in pts]
        s.faces = [tuple(new[i] for i in m.faces[k]) for k in fs]
        s.zone, s.znames, s.vars, s.title = [0] * len(fs), ['z'], m.vars, 't'
        s.data = {v: [m.data[v][k] for k in fs] for v in m.vars}
        r2 = result(s, c['opts'], ctx)
        compare([r1[i] for i in pts], r2, TOL * sized(s), 'component alone')
    ctx.nt(len(parts) > 1 and any(tuple(p) != tuple(q) for p, q in zip(m.points, r1)))
    ctx.cls('components', len(parts))


N = [1, 1, 2, 3, 5]
ICE = ('uniform', 'random', 'patch', 'linear', 'few')


@st.composite
def case_motion(draw):
    return {'mesh': draw(ice.cases(scales=(1.0, 30.0, 1e-3))), 'ice': draw(ice.ice(modes=ICE)),
            'opts': draw(ice.options(nsteps=N)), 'rot': draw(st.sampled_from([0, 5, 6, 7, 8])),
            'k': draw(st.sampled_from([1.0, 1.0, 0.5, 2.0, 7.0, 1e-2, 1e-3, 1e-4, 1e3])),
            'shift': draw(st.sampled_from([[0.0, 0.0, 0.0], [1.0, -2.0, 3.5], [100.3, -55.5, 17.1]]))}


@st.composite
def case_num(draw):
    return {'mesh': draw(ice.cases(scales=(1.0, 30.0, 1e-3))), 'ice': draw(ice.ice(modes=ICE)),
            'opts': draw(ice.options(nsteps=N)), 'seed': draw(st.integers(0, 999)),
            'nz': draw(st.integers(1, 4))}


@st.composite
def case_comp(draw):
    c = draw(ice.cases(max_comps=3, max_size=3, scales=(1.0, 30.0, 1e-3)))
    if len(c['comps']) == 1:
        c['comps'] = c['comps'] + [['plate', 2, 2]]
    return {'mesh': c, 'ice': draw(ice.ice(modes=ICE)), 'opts': draw(ice.options(nsteps=N, hsmooth=False))}


def parts():
    return [Part('motion', case_motion(), motion, 160, rule='a node moved'),
            Part('numbering', case_num(), numbering, 160, rule='a node moved'),
            Part('components', case_comp(), components, 100, rule='two components and a node moved')]
