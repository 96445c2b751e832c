"""C24: field transfer takes values from the nearest source cell."""
import math
import os
import random

from vf import mesh as M
from vf.core import Part, check, quiet
from vf.util import listing, load, raises, run_script
from hypothesis import strategies as st

ID = 'C24'
RULE = ('Case = source and target meshes (same, re-zoned, shifted, refined or foreign); non-trivial when '
        'at least two source cells are nearest to some target cell.')
ASSUMPTIONS = ['Nearest cells are compared with a relative slack of 1e-9 (ties accepted).']


def ident(c):
    """Distinct recognisable values for every source cell."""
    def f(m, vs, seed):
        r = random.Random(seed)
        for v in vs:
            m.data[v] = [r.uniform(-1e3, 1e3) if c['vals'] else M.awkward(r) for _ in m.faces]
            if v not in m.vars:
                m.vars.insert(r.randrange(len(m.vars) + 1), v)
    return f


def pair(c, vs):
    src = M.build(c['src'])
    put = ident(c)
    put(src, vs, c['seed'])
    r = random.Random(c['seed'] + 1)
    if c['kind'] == 'other':
        dst = M.build(c['dst'])
        # Bring both to the same place, more or less.
        a, b = box(src), box(dst)
        k = (a[1] / b[1]) * c['zoom']
        dst.points = [[(x - p) * k + q for x, p, q in zip(p_, b[0], a[0])] for p_ in dst.points]
    else:
        dst = src.copy()
        size = box(src)[1]
        if c['kind'] == 'shift':
            d = [r.gauss(0, 1) * c['amp'] * size for _ in range(3)]
            dst.points = [[x + y for x, y in zip(p, d)] for p in dst.points]
        if c['kind'] == 'tie':
            near_ties(dst, r)
        if c['kind'] == 'noise':
            dst.points = [[x + r.gauss(0, 1) * c['amp'] * size for x in p] for p in dst.points]
        if c['kind'] != 'same':
            order = list(range(len(dst.faces)))
            r.shuffle(order)
            dst.faces = [dst.faces[i] for i in order]
            dst.data = {v: [x[i] for i in order] for v, x in dst.data.items()}
            nz = r.randint(1, 3)
            dst.zone = [r.randrange(nz) for _ in order]
            used = sorted(set(dst.zone))
            dst.zone = [used.index(z) for z in dst.zone]
            dst.znames = ['t{0}'.format(z) for z in used]
        dst.title = 'target'
    put(dst, vs, c['seed'] + 7)
    return src, dst


def near_ties(m, r):
    """Cells almost, but not quite, as far from one cell of the old mesh as from another."""
    old = [[m.points[i] for i in f] for f in m.faces]
    cs = centres(old)
    points, faces = [], []
    for k, t in enumerate(old):
        near = sorted((i for i in range(len(cs)) if i != k), key=lambda i: math.dist(cs[i], cs[k]))[:3]
        a, b = cs[k], cs[r.choice(near)] if near else cs[k]
        h = 0.5 + r.choice([-1, 1]) * 10 ** r.choice([-8.3, -8, -7.5, r.uniform(-7, -2)])
        q = [x + (y - x) * h for x, y in zip(a, b)]
        s = r.choice([0.1, 1.0])
        faces.append(tuple(range(len(points), len(points) + 3)))
        points += [[y + (x - z) * s for x, y, z in zip(p, q, a)] for p in t]
    m.points, m.faces = points, faces


def box(m):
    lo = [min(p[k] for p in m.points) for k in range(3)]
    hi = [max(p[k] for p in m.points) for k in range(3)]
    return lo, max(h - l for l, h in zip(lo, hi))


def centres(cells):
    return [tuple(sum(p[k] for p in t) / 3 for k in range(3)) for t in cells]


def tris(z):
    return [[z.nodes[i] for i in f] for f in z.faces]


def nearest(q, cs):
    ds = [math.dist(q, x) for x in cs]
    d, far = min(ds), max(abs(x) for x in q)
    return [i for i, x in enumerate(ds) if x <= d * (1 + 1e-9) + 1e-12 * (far + d)]


def judge(before_src, before, after, names, ctx):
    """before, after: parsed target and result files."""
    check(after.title == before.title and after.vars == before.vars, 'title or variables changed: {0} {1}',
          after.title, after.vars)
    check([z.name for z in after.zones] == [z.name for z in before.zones], 'zones changed')
    scs = [t for z in before_src.zones for t in tris(z)]
    cs = centres(scs)
    svals = {v: [x for z in before_src.zones for x in z.data[v]] for v in names}
    hit = set()
    for z, w in zip(before.zones, after.zones):
        check(w.nodes == z.nodes and w.faces == z.faces, 'geometry of zone {0} changed', z.name)
        for v in before.vars[3:]:
            if v not in names:
                check(all(M.same_float(a, b) for a, b in zip(z.data[v], w.data[v])),
                      'variable {0} changed', v)
        for i, q in enumerate(centres(tris(z))):
            near = nearest(q, cs)
            got = tuple(w.data[v][i] for v in names)
            ok = [k for k in near if all(M.same_float(svals[v][k], x) for v, x in zip(names, got))]
            check(ok, 'cell {0} of zone {1} at {2} got {3}, nearest source cells hold {4}', i, z.name, q,
                  got, [[svals[v][k] for v in names] for k in near])
            hit.add(ok[0])
    ctx.nt(len(hit) > 1)


def by_function(c, ctx):
    src, dst = pair(c, ['T', 'Hw'])
    ctx.cls(c['kind'])
    os.mkdir('i')
    gs, gt = load(src, name='i/s.dat'), load(dst, name='i/t.dat')
    gs.store('i/s0.dat')
    gt.store('i/t0.dat')
    import interpolate
    with quiet():
        interpolate.face_centered_interpolation(gs, gt)
    gs.store('s1.dat')
    gt.store('t1.dat')
    with open('i/s0.dat') as a, open('s1.dat') as b:
        check(a.read() == b.read(), 'the source grid changed')
    judge(M.parse_dat('i/s0.dat'), M.parse_dat('i/t0.dat'), M.parse_dat('t1.dat'), ['T', 'Hw'], ctx)
    if c['kind'] == 'same':
        a, b = M.parse_dat('i/s0.dat'), M.parse_dat('t1.dat')
        for z, w in zip(a.zones, b.zones):
            for v in ('T', 'Hw'):
                check(all(M.same_float(x, y) for x, y in zip(z.data[v], w.data[v])),
                      'transfer between identical grids changed {0}', v)


def by_tool(c, ctx):
    tool = c['tool']
    names = ['T', 'Hw'] if tool == 'interpolate' else ['Beta']
    src, dst = pair(c, names)
    ctx.cls(tool, c['kind'])
    os.mkdir('i')
    path = c['path']
    os.makedirs(os.path.dirname(path), exist_ok=True)
    M.write_dat(src, 'i/s.dat')
    M.write_dat(dst, path)
    # What a plain load and store makes of the target.
    import gsu
    g = gsu.Grid()
    g.load(path)
    g.store('t0.dat')
    want = M.parse_dat('t0.dat')
    os.remove('t0.dat')
    old = listing('.')
    if tool == 'interpolate':
        out = (path if c['out'] == 'i/t.dat' else c['out']) or path[:-4] + '_interpolated.dat'
        argv = ['i/s.dat', path] + (['-res', out] if c['out'] else []) + ['-v'] * c['v']
    else:
        out = (path if c['out'] == 'i/t.dat' else c['out']) or 'res'
        argv = [path, 'i/s.dat', out]
    with quiet():
        run_script('convert/{0}.py'.format(tool), argv)
    new = listing('.')
    check(set(new) - set(old) == ({out} - set(old)), 'files written: {0}, expected {1}',
          sorted(set(new) - set(old)), out)
    for f in old:
        check(f == out or new[f] == old[f], '{0} was modified', f)
    got = M.parse_dat(out)
    with open('s0.dat', 'wb') as f:
        f.write(old['i/s.dat'])
    judge(M.parse_dat('s0.dat'), want, got, names, ctx)
    ctx.cls('in place' if out in old else 'new file')


def refuses(c, ctx):
    src, dst = pair(dict(c, kind='same'), ['T', 'Hw', 'Beta'])
    M.write_dat(src, 's.dat')
    M.write_dat(dst, 't.dat')
    M.write_dat(dst, 't.txt')
    old = listing('.')
    tool, how = c['tool'], c['how']
    if tool == 'interpolate':
        argv = {'no source': ['x.dat', 't.dat'], 'no target': ['s.dat', 'x.dat'],
                'extension': ['s.dat', 't.txt'], 'result': ['s.dat', 't.dat', '-res', 'r.txt'],
                'few': ['s.dat']}[how]
    else:
        argv = {'no source': ['t.dat', 'x.dat', 'o.dat'], 'no target': ['x.dat', 's.dat', 'o.dat'],
                'extension': ['t.dat', 's.dat'], 'result': ['t.dat'], 'few': []}[how]
    with quiet():
        bad = raises(run_script, 'convert/{0}.py'.format(tool), argv)
    check(bad, '{0} accepts {1}', tool, argv)
    check(listing('.') == old, 'a refused call writes files: {0}', sorted(listing('.')))
    ctx.nt()
    ctx.cls(tool, how)


@st.composite
def case(draw):
    kw = dict(max_size=5, max_comps=2, data=('plain', 'awkward'), scales=(1.0, 1e-3, 1e3, 0.37))
    return {'src': draw(M.mesh_cases(big=6, **kw)), 'dst': draw(M.mesh_cases(**kw)),
            'kind': draw(st.sampled_from(['other', 'other', 'same', 'shift', 'noise', 'zones', 'tie', 'tie'])),
            'zoom': draw(st.sampled_from([1.0, 0.5, 2.0, 10.0])),
            'amp': draw(st.sampled_from([0.01, 0.1, 0.5, 3.0])),
            'vals': draw(st.integers(0, 1)), 'seed': draw(st.integers(0, 9999))}


@st.composite
def case_tool(draw):
    c = draw(case())
    c['tool'] = draw(st.sampled_from(['interpolate', 'lazurit_add_beta_from_ansys']))
    c['out'] = draw(st.sampled_from(['', '', 'r.dat', 'i/r.x.dat', 'i/s.dat', 'i/t.dat']))
    c['v'] = draw(st.integers(0, 1))
    c['path'] = draw(st.sampled_from(['i/t.dat', 'i/t.dat', 'i.dat.d/t.dat', 'i/t.dat.x.dat', 'i/t.x.y.dat']))
    return c


@st.composite
def case_refuse(draw):
    c = draw(case())
    c['tool'] = draw(st.sampled_from(['interpolate', 'lazurit_add_beta_from_ansys']))
    c['how'] = draw(st.sampled_from(['no source', 'no target', 'extension', 'result', 'few']))
    return c


def parts():
    return [Part('function', case(), by_function, 500, rule='two source cells used'),
            Part('tool', case_tool(), by_tool, 400, rule='two source cells used'),
            Part('refuse', case_refuse(), refuses, 60, rule='always')]
