"""C20: remeshing moves nodes only, grows ice outwards and clears it."""
import json
import math
import os

from vf import ice
from vf import inv
from vf import mesh as M
from vf.core import Part, check, quiet
from vf.inv import pos
from vf.util import load, raises
from hypothesis import strategies as st

ID = 'C20'
RULE = ('Case = generated mesh with an ice field and a parameter file; non-trivial when a node moved '
        '(step counts: when the ice asks for a count outside the bounds).')
ASSUMPTIONS = ['Cells are well shaped; the direction of a node (mean of normals) is within 75 degrees of the normals of its cells; ice is thinner than 0.15 of the shortest side.']


def frame(g):
    """Everything remeshing must leave alone."""
    return ([(id(n), n.GloId, [id(x) for x in n.Edges], [id(x) for x in n.Faces]) for n in g.Nodes],
            [(id(e), e.GloId, [id(x) for x in e.Nodes], [id(x) for x in e.Faces]) for e in g.Edges],
            [(id(f), f.GloId, [id(x) for x in f.Nodes], [id(x) for x in f.Edges], id(f.Zone),
              {k: v for k, v in f.Data.items() if k != 'Hi'}) for f in g.Faces],
            [(id(z), z.Name, [id(x) for x in z.Nodes], [id(x) for x in z.Edges],
              [id(x) for x in z.Faces]) for z in g.Zones], g.Name)


def anything(c, ctx):
    m = M.build(c['mesh'])
    if not ice.smooth(m.points, m.faces):
        ctx.skip('sharp surface')
        return
    if c['ice'] is not None:
        ice.put_ice(m, c['ice'])
    g = load(m)
    before, place = frame(g), {id(n): pos(n) for n in g.Nodes}
    wet = {id(f) for f in g.Faces if f['Hi'] != 0.0}
    o = c['opts']
    with quiet():
        ice.run(g, o)
    check(frame(g) == before, 'remeshing changed links, numbers, zones or data')
    check(all(f['Hi'] == 0.0 for f in g.Faces), 'ice is left after remeshing: {0}',
          [f['Hi'] for f in g.Faces][:5])
    inv.incidence(g)
    check(all(math.isfinite(x) for n in g.Nodes for x in pos(n)), 'coordinates are not finite')
    moved = {id(n) for n in g.Nodes if pos(n) != place[id(n)]}
    ctx.nt(bool(moved))
    if not o.get('remesh_nss_steps'):
        if not wet:
            check(not moved, '{0} nodes moved without ice', len(moved))
        near = set(wet)
        for _ in range(o.get('remesh_hsmooth_steps', 0) * o['remesh_nsteps_max']):
            near |= {id(f) for e in g.Edges if any(id(f) in near for f in e.Faces) for f in e.Faces}
        for n in g.Nodes:
            if not any(id(f) in near for f in n.Faces):
                check(id(n) not in moved, 'node {0} moved though there is no ice around', n.GloId)
                if wet:
                    ctx.cls('dry node')
        if o['remesh_nsteps_min'] > 0 and not o.get('remesh_hsmooth_steps'):
            for n in g.Nodes:
                if any(id(f) in wet for f in n.Faces):
                    check(id(n) in moved, 'node {0} with ice around did not move', n.GloId)
    if o['remesh_nsteps_max'] == 0:
        check(not moved, 'nodes moved in zero steps')
    # The remeshed grid is a grid like any other.
    g.store('out.dat')
    d = M.parse_dat('out.dat')
    check([z.name for z in d.zones] == [z.Name for z in g.Zones], 'zones of the stored result')


def plate(c, ctx):
    """Uniform ice on a flat plate raises every node by exactly its height."""
    m = flat(c)
    h = c['h'] * ice.side(m)
    m.vars.append('Hi')
    m.data['Hi'] = [h] * len(m.faces)
    up = ice.tri_normal(*(m.points[i] for i in m.faces[0]))
    g = load(m)
    place = {id(n): pos(n) for n in g.Nodes}
    with quiet():
        ice.run(g, c['opts'])
    size = max(max(abs(x) for x in p) for p in m.points) + h
    lifted = h if c['opts']['remesh_nsteps_max'] else 0.0
    for n in g.Nodes:
        want = ice.add(place[id(n)], ice.mul(up, lifted))
        check(math.dist(want, pos(n)) <= 1e-9 * size + 1e-6 * h, 'a node rose by {0}, ice height {1}',
              ice.dot(ice.sub(pos(n), place[id(n)]), up), h)
    ctx.nt(lifted > 0)
    ctx.cls('steps', c['opts']['remesh_nsteps_max'])


def flat(c):
    k = dict(c['mesh'], rot=0, scale=1.0, shift=[0.0, 0.0, 0.0], jitter=0)
    m = M.build(k)
    import random
    r = random.Random(c['jseed'])
    amp = c['jit'] * 0.01
    m.points = [[x + r.uniform(-amp, amp), y + r.uniform(-amp, amp), 0.0] for x, y, _ in m.points]
    mat, s, sh = M.rotation(c['mesh']['rot']), c['mesh']['scale'], c['mesh']['shift']
    m.points = [[s * x + d for x, d in zip(M.apply(mat, p), sh)] for p in m.points]
    return m


def one_step(c, ctx):
    """A single step without smoothing follows the documented direction and height."""
    m = M.build(c['mesh'])
    if not ice.smooth(m.points, m.faces):
        ctx.skip('sharp surface')
        return
    ice.put_ice(m, c['ice'])
    g = load(m)
    nodes = ice.loaded_order(m, g)
    if any(n is None for n in nodes):
        ctx.skip('merged nodes')
        return
    want, dirs = ice.step_model(m.points, m.faces, m.data['Hi'])
    o = {'remesh_nsteps_min': 1, 'remesh_nsteps_max': 1}
    if c['redistr'] is not None:
        o['remesh_rest_volume_redistr'] = c['redistr']
    with quiet():
        ice.run(g, o)
    h = max(m.data['Hi'])
    size = max(max(abs(x) for x in p) for p in m.points)
    for p, w, d, n in zip(m.points, want, dirs, nodes):
        check(math.dist(w, pos(n)) <= 1e-5 * h + 1e-12 * size, 'node at {0} moved to {1}, expected {2}',
              p, pos(n), w)
        s = ice.dot(ice.sub(pos(n), p), d)
        check(s >= -1e-12 * size, 'a node moved inwards by {0}', -s)
    ctx.nt(h > 0 and len(m.faces) > 1)
    ctx.cls(c['ice']['mode'])


def steps(c, ctx):
    """Bounds of the number of steps, seen through the exported intermediate grids."""
    m = M.build(c['mesh'])
    if not ice.smooth(m.points, m.faces):
        ctx.skip('sharp surface')
        return
    ice.put_ice(m, c['ice'])
    lo, hi = c['min'], c['max']
    o = {'remesh_nsteps_hi_side_fact': c['fact'], 'remesh_nsteps_ignore_part': c['ignore']}
    if lo is not None:
        o['remesh_nsteps_min'] = lo
    if hi is not None:
        o['remesh_nsteps_max'] = hi
    if c['key']:
        o['remesh_verbose'] = True
    g = load(m)
    os.mkdir('o')
    lo, hi = 0 if lo is None else lo, 10 if hi is None else hi
    with quiet():
        if lo > hi:
            ctx.cls('contradictory')
            ctx.nt()
            check(raises(ice.run, g, o, 'o/', verbose=not c['key']), 'bounds {0} > {1} are accepted', lo, hi)
            return
        ice.run(g, o, outdir='o/', verbose=not c['key'])
    names = sorted(os.listdir('o'))
    check(names == ['m_{0:05d}.dat'.format(i) for i in range(len(names))],
          'intermediate grids {0}', names)
    check(lo <= len(names) <= hi, '{0} steps with bounds {1}..{2}', len(names), lo, hi)
    ctx.cls('at lower bound' if len(names) == lo else 'at upper bound' if len(names) == hi else 'inside')
    ctx.nt(any(x > 0 for x in m.data['Hi']))
    # The last intermediate grid is the result.
    if names:
        g.store('out.dat')
        a, b = M.parse_dat('out.dat'), M.parse_dat('o/' + names[-1])
        check([x.nodes for x in a.zones] == [x.nodes for x in b.zones],
              'the last intermediate grid is not the result')
    # Verbosity changes nothing.
    h = load(m)
    with quiet():
        ice.run(h, {k: v for k, v in o.items() if k != 'remesh_verbose'})
    check([pos(n) for n in h.Nodes] == [pos(n) for n in g.Nodes], 'verbose run gives another result')


def defaults(c, ctx):
    """Absent options have their documented defaults."""
    m = M.build(c['mesh'])
    if not ice.smooth(m.points, m.faces):
        ctx.skip('sharp surface')
        return
    ice.put_ice(m, c['ice'])
    part = {k: c['full'][k] for k in c['keep'] if k in c['full']}
    full = dict(ice.DEFAULTS, **part)
    g, h = load(m), load(m)
    with quiet():
        ice.run(g, part if (part or c['file']) else None)
        ice.run(h, full)
    check([pos(n) for n in h.Nodes] == [pos(n) for n in g.Nodes],
          'options {0} give another result than with all defaults written out', json.dumps(part))
    ctx.nt(any(x > 0 for x in m.data['Hi']))


@st.composite
def case_any(draw):
    return {'mesh': draw(ice.cases()), 'ice': draw(st.one_of(st.none(), ice.ice(), ice.ice(), ice.ice())),
            'opts': draw(ice.options())}


@st.composite
def case_plate(draw):
    return {'mesh': draw(ice.cases(bases=['plate'], max_comps=1)), 'jit': draw(st.sampled_from([0, 10, 20])),
            'jseed': draw(st.integers(0, 99)), 'h': draw(st.sampled_from([0.01, 0.1, 0.5, 2.0])),
            'opts': draw(ice.options(nss=False))}


@st.composite
def case_step(draw):
    return {'mesh': draw(ice.cases()), 'ice': draw(ice.ice()),
            'redistr': draw(st.sampled_from([None, True, False]))}


@st.composite
def case_steps(draw):
    return {'mesh': draw(ice.cases(max_size=3, max_comps=1)), 'ice': draw(ice.ice(amp=(0.02, 0.1, 0.3))),
            'min': draw(st.sampled_from([None, 0, 1, 2, 3, 5, 12])),
            'max': draw(st.sampled_from([None, 0, 1, 2, 3, 4, 6, 11])),
            'fact': draw(st.sampled_from([0.02, 0.05, 0.1, 0.5])),
            'ignore': draw(st.sampled_from([0.0, 0.05, 0.3, 0.6])), 'key': draw(st.integers(0, 1))}


@st.composite
def case_defaults(draw):
    full = draw(ice.options())
    lo = draw(st.integers(1, 3))
    full.update({'remesh_nsteps_min': lo, 'remesh_nsteps_max': lo + draw(st.integers(0, 9))})
    for k, v in (('remesh_nsmooth_steps', [1, 2]), ('remesh_hsmooth_steps', [1, 2]),
                 ('remesh_nss_steps', [1, 2])):
        if draw(st.booleans()):
            full[k] = draw(st.sampled_from(v))
    keep = draw(st.lists(st.sampled_from(sorted(ice.DEFAULTS)), max_size=7, unique=True))
    # Partial bounds may contradict the other default.
    if full['remesh_nsteps_min'] > 10 and 'remesh_nsteps_max' not in keep:
        keep = [k for k in keep if k != 'remesh_nsteps_min']
    return {'mesh': draw(ice.cases(max_size=3, max_comps=1)), 'ice': draw(ice.ice(modes=('random', 'linear', 'patch', 'few'))),
            'full': full, 'keep': keep, 'file': draw(st.booleans())}


def parts():
    return [Part('any', case_any(), anything, 250, rule='a node moved'),
            Part('plate', case_plate(), plate, 150, rule='ice grew'),
            Part('one step', case_step(), one_step, 300, rule='ice and at least two cells'),
            Part('steps', case_steps(), steps, 150, rule='ice present or contradictory bounds'),
            Part('defaults', case_defaults(), defaults, 120, rule='ice present')]
