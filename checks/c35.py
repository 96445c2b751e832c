"""C35: remeshing follows the documented scheme with all its options."""
import math
import os
import random
import re

from vf import ice
from vf import mesh as M
from vf.core import Part, check, quiet
from vf.inv import pos
from vf.tong import Tong, Unclear
from vf.util import load
from checks.c23 import cols, column_mesh
from hypothesis import strategies as st

ID = 'C35'
RULE = ('Case = iced mesh and a parameter file; non-trivial when a node moved in two or more steps or '
        'with some smoothing.')
ASSUMPTIONS = ['Well-shaped cells; cases in which rounding decides (a threshold hit within 1e-5, cancellation '
               'in the quadratic) are skipped and counted.']


def judge(m, c, ctx):
    o = c['opts']
    ice.put_ice(m, c['ice'])
    # Step counts change at whole numbers: avoid the round ratios of the generator.
    m.data['Hi'] = [h * 0.97313 for h in m.data['Hi']]
    t = Tong(m.points, m.faces, m.data['Hi'], o)
    try:
        want = t.run()
    except Unclear as e:
        ctx.skip(str(e))
        return
    size = max(math.dist(p, m.points[0]) for p in m.points)
    if any(not math.isfinite(x) for p in want for x in p) or \
            any(math.dist(a, b) > size for a, b in zip(m.points, want)):
        ctx.skip('wild')
        return
    g = load(m)
    nodes = ice.loaded_order(m, g)
    if any(n is None for n in nodes) or len(g.Nodes) != len(m.points):
        ctx.skip('merged nodes')
        return
    os.mkdir('o')
    with quiet() as out:
        ice.run(g, o, outdir='o/', verbose=True)
    names = sorted(os.listdir('o'))
    check(len(names) == t.steps, '{0} steps instead of {1}', len(names), t.steps)
    far = max(abs(x) for p in m.points for x in p) + size
    move = max(math.dist(p, q) for p, q in zip(m.points, want))
    top = max(m.data['Hi'])
    tol = 1e-5 * min(move, top if not o.get('remesh_nss_steps') else move) + 1e-11 * far
    # Every step, then the result.
    where = {id(x): i for i, x in enumerate(nodes)}
    for k, name in enumerate(names):
        d = M.parse_dat('o/' + name)
        for z, dz in zip(g.Zones, d.zones):
            for x, p in zip(z.Nodes, dz.nodes):
                w = t.trace[k][where[id(x)]]
                check(math.dist(w, p) <= tol, 'step {0} of {1}: a node is at {2}, expected {3}', k + 1,
                      t.steps, p, w)
    for w, n in zip(want, nodes):
        check(math.dist(w, pos(n)) <= tol, 'a node is at {0}, expected {1}', pos(n), w)
    report(out, t, sum(t.target), 1e-13 * far ** 3 * len(m.faces))
    ctx.nt(move > 1e-9 * size and (t.steps > 1 or o.get('remesh_nsmooth_steps', 0) +
                                   o.get('remesh_hsmooth_steps', 0) + o.get('remesh_nss_steps', 0) > 0))
    ctx.cls('steps {0}'.format(min(t.steps, 4)))
    for k in ('nsmooth', 'hsmooth', 'nss'):
        if o.get('remesh_{0}_steps'.format(k)):
            ctx.cls(k)
    if o.get('remesh_rest_volume_redistr') is False:
        ctx.cls('no redistribution')


def report(out, t, total, noise):
    """Planned and missed volume as printed."""
    text = out.getvalue()
    r = re.search(r'ice : (\S+) - target, (\S+) - diff', text)
    check(r is not None, 'no report of volumes')
    diff = sum(abs(a - b) for a, b in zip(t.actual, t.target))
    a, b = float(r.group(1)), float(r.group(2))
    check(abs(a - total) <= 1e-3 * total, 'reported target {0}, planned {1}', a, total)
    check(abs(b - diff) <= 1e-3 * diff + 2e-5 * total + noise, 'reported difference {0}, expected {1}', b, diff)
    r = re.search(r'accuracy\s*: (\S+) %', text)
    if total > 0:
        check(r is not None and abs(float(r.group(1)) - 100 * diff / total) 
              <= 0.1 * diff / total + 2e-3 + 100 * noise / total,
              'reported accuracy {0}, expected {1}', r and r.group(1), 100 * diff / total)


def surface(c, ctx):
    m = M.build(c['mesh'])
    if not ice.smooth(m.points, m.faces, 0.06):
        ctx.skip('sharp surface')
        return
    ctx.cls('sharp edges' if not ice.smooth(m.points, m.faces) else 'no sharp edges')
    judge(m, c, ctx)


def extruded(c, ctx):
    m, n, zs = column_mesh(c['cols'])
    judge(m, dict(c, opts=dict(c['opts'], remesh_pseudo_2d_oz=True)), ctx)


def counts(c, ctx):
    """Number of steps alone, with needs of cells around the bounds."""
    m = M.build(c['mesh'])
    if not ice.smooth(m.points, m.faces):
        ctx.skip('sharp surface')
        return
    r = random.Random(c['seed'])
    o = c['opts']
    if c['whole']:
        # All lengths and ratios are exact: the need of a cell is one more than a whole ratio.
        m.points, m.faces = M._plate(*c['whole'])
        m.points = [[x / 4 for x in p] for p in m.points]
        m.zone, m.znames, m.vars, m.data = [0] * len(m.faces), ['z'], [], {}
        o = dict(o, remesh_nsteps_hi_side_fact=2.0 ** -8)
    most = o['remesh_nsteps_max']
    spare = int(len(m.faces) * o['remesh_nsteps_ignore_part'])
    # Descending needs: some above the maximum, some at it, the others below.
    a = r.randrange(0, spare + 2)
    b = a + r.randrange(0, 3)
    if r.random() < 0.5:
        a = b = r.randrange(0, spare // 2 + 1)
    need = [most + 1 + r.randrange(3) if i < a else most if i < b else r.randint(1, max(1, most - 1))
            for i in range(len(m.faces))]
    r.shuffle(need)
    m.vars = [v for v in m.vars if v != 'Hi'] + ['Hi']
    m.data['Hi'] = [(k - (1 if c['whole'] else 0.4)) * o['remesh_nsteps_hi_side_fact'] *
                    min(math.dist(m.points[f[i]], m.points[f[i - 1]]) for i in range(3))
                    for k, f in zip(need, m.faces)]
    try:
        want = Tong(m.points, m.faces, m.data['Hi'], o).count(bool(c['whole']))
    except Unclear as e:
        ctx.skip(str(e))
        return
    g = load(m)
    os.mkdir('o')
    with quiet():
        ice.run(g, o, outdir='o/', verbose=True)
    n = len(os.listdir('o'))
    check(n == want, '{0} steps instead of {1}, needs {2}, {3} cells may be ignored', n, want,
          sorted(need, reverse=True)[:spare + 1], spare)
    ctx.nt(spare > 0)
    ctx.cls('minimum' if n == o['remesh_nsteps_min'] else 'maximum' if n == most else 'between')


@st.composite
def case_counts(draw):
    most = draw(st.integers(1, 6))
    return {'mesh': draw(ice.cases(max_size=4, max_comps=1, max_zones=2)), 'seed': draw(st.integers(0, 9999)),
            'whole': draw(st.sampled_from([None, None, [3, 2], [1, 1], [4, 4], [5, 2]])),
            'opts': {'remesh_nsteps_min': draw(st.one_of(st.just(0), st.integers(0, most))), 'remesh_nsteps_max': most,
                     'remesh_nsteps_hi_side_fact': draw(st.sampled_from([0.003, 0.01])),
                     'remesh_nsteps_ignore_part': draw(st.sampled_from([0.0, 0.05, 0.13, 0.3, 0.7]))}}


@st.composite
def opts(draw, nss=True):
    o = draw(ice.options(nss=nss))
    if draw(st.booleans()):
        o.update(draw(ice.options(nsteps=[1, 2, 3, 4], nss=nss)))
    return o


AMP = (0.02, 0.05, 0.15, 0.3)


@st.composite
def case_surface(draw):
    mesh = draw(ice.cases(max_size=5, hubs=10, scales=(1.0, 30.0, 0.25, 0.01, 1e-4)))
    mesh['squash'] = draw(st.sampled_from([0, 0, 0, 0.4, 0.2, 0.1, 0.1]))
    if mesh['squash'] == 0.1:
        mesh['comps'] = [['octa', 1, 1]]
        mesh['jitter'] = min(mesh['jitter'], 3)
    return {'mesh': mesh, 'ice': draw(ice.ice(modes=('uniform', 'random', 'patch', 'linear', 'few', 'random', 'specks'), amp=AMP)),
            'opts': draw(opts())}


@st.composite
def case_large(draw):
    # Hundreds of cells.
    mesh = draw(ice.cases(max_size=3, max_comps=1))
    mesh['comps'] = [[draw(st.sampled_from(['plate', 'tube'])), draw(st.integers(18, 26)), draw(st.integers(14, 20))]]
    mesh['jitter'] = min(mesh.get('jitter', 0), 3)
    mesh['squash'] = 0
    o = draw(opts())
    o['remesh_nsteps_max'] = draw(st.integers(1, 2))
    o['remesh_nsteps_min'] = 1
    o['remesh_hsmooth_steps'] = draw(st.integers(0, 2))
    o['remesh_hsmooth_alfa'] = draw(st.sampled_from([0.05, 0.2]))
    return {'mesh': mesh, 'ice': draw(ice.ice(modes=('uniform', 'random', 'patch', 'linear', 'linear'), amp=AMP)), 'opts': o}


@st.composite
def case_columns(draw):
    return {'cols': draw(cols()), 'ice': draw(ice.ice(modes=('uniform', 'random', 'patch', 'linear', 'few'),
                                                     amp=AMP)), 'opts': draw(opts())}


def parts():
    return [Part('surface', case_surface(), surface, 350, rule='a node moved, several steps or smoothing'),
            Part('columns', case_columns(), extruded, 150, rule='a node moved, several steps or smoothing'),
            Part('large', case_large(), surface, 12, rule='a node moved, several steps or smoothing'),
            Part('count', case_counts(), counts, 200, rule='some cell may be ignored')]
