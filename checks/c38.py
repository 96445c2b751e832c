"""C38: questions about a grid and its files always describe its present state."""
import math
import os
import random

from checks import c12, c30
from checks.c13 import op as topo_op
from vf import cry
from vf import decomp as D
from vf import ice
from vf import inv
from vf import mesh as M
from vf import topo
from vf.core import Part, check, quiet
from vf.inv import corners, pos
from hypothesis import strategies as st

ID = 'C38'
RULE = ('Case = generated mesh and a history of changes with questions asked in between; non-trivial when '
        'something asked before has changed since.')
ASSUMPTIONS = ['Nodes stay apart: after a move no node lies within the merging distance of another one.']

QUESTIONS = ['geometry', 'zones', 'views', 'store', 'cry', 'calc']


# ------------------------------------------------------------------------------------------ questions

def geometry(g, c):
    """Measures of cells and edges."""
    for f in g.Faces:
        a, b, d = ps = corners(f)
        t = f.get_triangle()
        check([(p.X, p.Y, p.Z) for p in t.Points] == list(ps), 'triangle of cell {0}: {1} instead of {2}',
              f.GloId, t.Points, ps)
        top = max(abs(x) for p in ps for x in p)
        want = M.tri_area(a, b, d)
        ls = [math.dist(a, b), math.dist(b, d), math.dist(a, d)]
        eps = 1e-12 * (max(ls) + top) * max(ls)
        check(abs(t.area() - want) <= eps, 'area of cell {0}: {1} instead of {2}', f.GloId, t.area(), want)
        check(abs(t.min_side() - min(ls)) <= 1e-12 * top + 1e-12 * max(ls), 'least side of cell {0}', f.GloId)
        cen = f.get_center()
        cen2 = t.centroid()
        for i in range(3):
            w = (a[i] + b[i] + d[i]) / 3.0
            check(abs(cen[i] - w) <= 1e-12 * top and abs(cen2[i] - w) <= 1e-12 * top,
                  'centre of cell {0}: {1} instead of {2} in coordinate {3}', f.GloId, cen[i], w, i)
        e = f.max_edge_from_face()
        check(any(e is x for x in f.Edges), 'longest edge of cell {0} is not its edge', f.GloId)
        check(math.dist(pos(e.Nodes[0]), pos(e.Nodes[1])) >= max(ls) * (1 - 1e-9),
              'longest edge of cell {0}', f.GloId)
        for e in f.Edges:
            other = [x for x in e.Faces if x is not f]
            check(f.get_neighbour(e) is (other[0] if other else None), 'neighbour of cell {0}', f.GloId)
    for e in g.Edges:
        p, q = pos(e.Nodes[0]), pos(e.Nodes[1])
        check(abs(e.len_edge() - math.dist(p, q)) <= 1e-12 * max(map(abs, p + q)) + 1e-12 * math.dist(p, q),
              'length of edge {0}: {1} instead of {2}', e.GloId, e.len_edge(), math.dist(p, q))


def zones(g, c):
    c12.present(g, c['merge'])


def views(g, c):
    c30.present(g, sorted({k for f in g.Faces for k in f.Data}))


def store(g, c):
    g.store('now.dat')
    q = M.parse_dat('now.dat')
    check(q.title == g.Name, 'title {0!r} stored as {1!r}', g.Name, q.title)
    check([z.name for z in q.zones] == [z.Name for z in g.Zones], 'names of zones stored')
    check(set(q.vars) == {k for f in g.Faces for k in f.Data}, 'variables stored: {0}', q.vars)
    for z, s in zip(g.Zones, q.zones):
        check(len(s.faces) == len(z.Faces) and len(s.nodes) == len(z.Nodes), 'zone {0!r}: counts stored', z.Name)
        for k, (f, t) in enumerate(zip(z.Faces, s.faces)):
            got = tuple(tuple(s.nodes[i]) for i in t)
            check(M.cyclic(got) == M.cyclic(corners(f)), 'cell {0} of zone {1!r} stored with corners {2} instead of {3}',
                  k, z.Name, got, corners(f))
            for v in q.vars:
                check(M.same_float(s.data[v][k], f.Data.get(v, 0.0)), 'cell {0} of zone {1!r}: {2} stored as {3}',
                      k, z.Name, v, s.data[v][k])


def crys(g, c):
    g.store_mpi('now', '000000000000')
    for i, z in enumerate(g.Zones):
        name = 'now_{0:05d}_000000000000.cry'.format(i)
        q = cry.parse(name)
        os.remove(name)
        check(q.title == z.Name and q.gloids == [f.GloId for f in z.Faces], 'zone {0}: title or cells in .cry', i)
        check((q.nn, q.ne) == (len(z.Nodes), len(z.Edges)), 'zone {0}: counts in .cry', i)
        for k, f in enumerate(z.Faces):
            got = tuple(q.nodes[n] for n in q.face_nodes[k])
            check(M.cyclic(got) == M.cyclic(corners(f)), 'zone {0}: corners {1} instead of {2} in .cry', i, got,
                  corners(f))
            for v in cry.VARIABLES[4:]:
                check(M.same_float(q.data[v][k], f.Data.get(v, 0.0)), 'zone {0}: {1} in .cry is {2}', i, v,
                      q.data[v][k])
        want = {}
        for f in z.Faces:
            for e in f.Edges:
                for h in e.Faces:
                    if h.Zone is not z:
                        j = [k for k, y in enumerate(g.Zones) if y is h.Zone][0]
                        want.setdefault(j, set()).add(frozenset(pos(n) for n in e.Nodes))
        got = {}
        for j, es in q.borders:
            check(len(set(es)) == len(es), 'zone {0}: border edge twice in .cry', i)
            got[j] = {frozenset(q.nodes[n] for n in q.edge_nodes[x]) for x in es}
        check(got == want, 'zone {0}: borders in .cry', i)


def calc(g, c):
    """The sample of calculation data holds identifiers and slightly increased values."""
    g.store_faces_calc_data('now.txt')
    with open('now.txt') as f:
        rows = [x.split() for x in f.read().split('\n')[1:-1]]
    check([int(r[0]) for r in rows] == [f.GloId for f in g.Faces], 'identifiers of calculation data')
    for r, f in zip(rows, g.Faces):
        for x, v in zip(r[1:], ('T', 'Hw', 'Hi')):
            w = f.Data.get(v, 0.0)
            check(-1e-12 * abs(w) <= float(x) - w <= 1.0 + 1e-12 * abs(w), '{0} of calculation data', v)


ASK = {'geometry': geometry, 'zones': zones, 'views': views, 'store': store, 'cry': crys, 'calc': calc}


def ask(g, c, names):
    whole = topo.deep(g)
    with quiet():
        for n in names:
            ASK[n](g, c)
    check(topo.deep(g) == whole, 'asking about {0} changed the grid', names)


# ------------------------------------------------------------------------------------------- changes

def put(g, s):
    r = random.Random(s['seed'])
    for f in g.Faces:
        if r.random() < 0.7:
            f[s['var']] = r.choice([0.0, 1.5, r.uniform(-5, 5)])


def read(g, s):
    """Results of a calculation."""
    r = random.Random(s['seed'])
    vs = [v for v in ('T', 'Hw', 'Hi') if r.random() < 0.8]
    with open('res.txt', 'w') as f:
        f.write('VARIABLES="GloId"' + ''.join(', "{0}"'.format(v) for v in vs) + '\n')
        for x in g.Faces:
            if r.random() < 0.7:
                f.write(' '.join([str(x.GloId)] + [repr(round(r.uniform(0, 9), 3)) for _ in vs]) + '\n')
    g.load_faces_calc_data('res.txt')


def heights(g, s):
    r = random.Random(s['seed'])
    side = sorted(math.dist(pos(e.Nodes[0]), pos(e.Nodes[1])) for e in g.Edges)
    h = side[0] * s['amp']
    for f in g.Faces:
        f['Hi'] = h * (0.3 + 0.7 * r.random())


def accrete(g, s):
    heights(g, s)
    ice.run(g, s['opts'])


def relax(g, s):
    from smoothing import NullSpaceSmoothing
    if s['fix']:
        g.mark_all_fixed_nodes()
    NullSpaceSmoothing(g, 1, fix_boundary_nodes=bool(s['fix']), st=s['st']).smoothing()


def shapely(g):
    """No cell is too thin for what follows."""
    for f in g.Faces:
        a, b, d = corners(f)
        m = max(math.dist(a, b), math.dist(b, d), math.dist(a, d))
        if M.tri_area(a, b, d) < 0.02 * m * m:
            return False
        n = M.tri_cross(a, b, d)
        for e in f.Edges:
            for h in e.Faces:
                k = M.tri_cross(*corners(h))
                if sum(x * y for x, y in zip(n, k)) < 0.3 * math.hypot(*n) * math.hypot(*k):
                    return False
    return True


def change(g, s):
    """Carry out a change; returns its kind or None when it is not applicable here."""
    k = s['kind']
    if k == 'zones':
        D.apply(g, s['step'], D.fixed_names(g, s['step']['fix']))
        return s['step']['op']
    if k == 'topo':
        return topo.step(g, s['step'])
    if k == 'explode':
        g.move_from_mean_point(s['k'])
        return k
    if k == 'put':
        put(g, s)
        return k
    if k == 'read':
        read(g, s)
        return k
    if k == 'clean':
        g.clean_t_hw_hi()
        return k
    if not shapely(g):
        return None
    (accrete if k == 'remesh' else relax)(g, s)
    return k


# --------------------------------------------------------------------------------------- a fresh copy

def fresh(g, c):
    """The same grid read from a file written from its objects alone."""
    import gsu
    vs = sorted({k for f in g.Faces for k in f.Data})
    with open('fresh.dat', 'w') as f:
        f.write('# copy\nTITLE="{0}"\nVARIABLES={1}\n'.format(
            g.Name, ', '.join('"{0}"'.format(v) for v in ['X', 'Y', 'Z'] + vs)))
        for z in g.Zones:
            num = {id(n): i + 1 for i, n in enumerate(z.Nodes)}
            f.write('ZONE T="{0}"\nNODES={1}\nELEMENTS={2}\nDATAPACKING=BLOCK\nZONETYPE=FETRIANGLE\n'
                    'VARLOCATION=([4-{3}]=CELLCENTERED)\n'.format(z.Name, len(z.Nodes), len(z.Faces), 3 + len(vs)))
            for i in range(3):
                f.write(' '.join(repr(float(pos(n)[i])) for n in z.Nodes) + '\n')
            for v in vs:
                f.write(' '.join(repr(float(x.Data.get(v, 0.0))) for x in z.Faces) + '\n')
            for x in z.Faces:
                f.write(' '.join(str(num[id(n)]) for n in x.Nodes) + '\n')
    h = gsu.Grid()
    h.load('fresh.dat', is_merge_same_nodes=bool(c['merge']))
    return h


def pairs(g, h):
    """Cells of both grids in the same order (by zones)."""
    a = [f for z in g.Zones for f in z.Faces]
    b = [f for z in h.Zones for f in z.Faces]
    check(len(a) == len(b), 'a grid and its copy have {0} and {1} cells', len(a), len(b))
    return list(zip(a, b))


def compare(g, h, ps, what, tol):
    for a, b in ps:
        for p, q in zip(corners(a), corners(b)):
            check(math.dist(p, q) <= tol, '{0}: corner at {1} of a grid with a history, at {2} of its fresh copy',
                  what, p, q)


def last(g, c):
    """The same change of the grid and of its fresh copy."""
    s = c['last']
    k = s['kind']
    h = fresh(g, c)
    if len(h.Nodes) != len(g.Nodes):
        return None
    ps = pairs(g, h)
    reach = max(abs(x) for n in g.Nodes for x in pos(n)) + 1e-300
    if k in ('remesh', 'relax', 'explode'):
        if k == 'remesh':
            if not shapely(g):
                return None
            heights(g, s)
            for a, b in ps:
                b['Hi'] = a['Hi']
            for x in (g, h):
                ice.run(x, s['opts'])
        elif k == 'relax':
            if not shapely(g):
                return None
            for x in (g, h):
                relax(x, s)
        else:
            for x in (g, h):
                x.move_from_mean_point(s['k'])
        compare(g, h, ps, k, 1e-7 * reach)
        return k
    # Hierarchical cuts.
    for x in (g, h):
        x.decompose_hierarchical(levels=s['levels'])
    parts = []
    for x, i in ((g, 0), (h, 1)):
        num = {id(p[i]): n for n, p in enumerate(ps)}
        parts.append([(z.Name, sorted(num[id(f)] for f in z.Faces)) for z in x.Zones])
    check(parts[0] == parts[1], 'hierarchical cuts of a grid with a history and of its fresh copy: {0}, {1}',
          parts[0], parts[1])
    return 'cut'


def history(c, ctx):
    m = M.build(c['mesh'])
    import gsu
    M.write_dat(m, 'in.dat')
    g = gsu.Grid()
    g.load('in.dat', is_merge_same_nodes=bool(c['merge']))
    asked, moved = set(), False
    for s in c['ops']:
        names = [q for i, q in enumerate(QUESTIONS) if s['ask'] >> i & 1]
        ask(g, c, names)
        asked.update(names)
        with quiet():
            k = change(g, s)
        if k and k != 'refused':
            ctx.cls(k.split()[0])
            moved = moved or bool(asked)
        if s['again']:
            # The object is used for another grid and then for this one again.
            M.write_dat(M.build(c['other']), 'other.dat')
            h = fresh(g, c)
            if len(h.Nodes) == len(g.Nodes):
                g.load('other.dat')
                ask(g, dict(c, merge=1), names)
                g.load('fresh.dat', is_merge_same_nodes=bool(c['merge']))
                ctx.cls('reloaded')
    if len({pos(n) for n in g.Nodes}) == len(g.Nodes) or not c['merge']:
        ask(g, c, QUESTIONS)
        if c['merge']:
            inv.incidence(g)
    with quiet():
        k = last(g, c)
    if k:
        ctx.cls('last ' + k)
    ask(g, c, QUESTIONS)
    ctx.nt(moved)


# --------------------------------------------------------------------------------------- generators

@st.composite
def one(draw, kinds):
    s = {'kind': draw(st.sampled_from(kinds)), 'ask': draw(st.integers(0, 63)), 'seed': draw(st.integers(0, 999)),
         'again': draw(st.sampled_from([0] * 9 + [1]))}
    k = s['kind']
    if k == 'zones':
        s['step'] = draw(D.step(max_n=5, max_levels=3))
    elif k == 'topo':
        s['step'] = draw(topo_op(['divide', 'cut', 'cut1', 'cut2', 'collapse', 'flip']))
    elif k == 'explode':
        s['k'] = draw(st.sampled_from([0.1, 1.0, 0.0, 2.5]))
    elif k == 'put':
        s['var'] = draw(st.sampled_from(['T', 'Hw', 'Hi', 'Q', 'MImp2']))
    elif k == 'remesh':
        s['amp'] = draw(st.sampled_from([0.02, 0.1]))
        s['opts'] = {'remesh_nsteps_min': 1, 'remesh_nsteps_max': draw(st.integers(1, 2)),
                     'remesh_nss_steps': draw(st.integers(0, 1)), 'remesh_hsmooth_steps': draw(st.integers(0, 1)),
                     'remesh_nsmooth_steps': draw(st.integers(0, 1))}
    elif k == 'relax':
        s['fix'] = draw(st.integers(0, 1))
        s['st'] = draw(st.sampled_from([0.1, 0.3]))
    elif k == 'hier':
        s['levels'] = draw(st.integers(2, 4))
    return s


@st.composite
def case(draw, merge=1):
    vs = ['T', 'Hw', 'Hi', 'Q', 'RecoveryFactor']
    c = {'mesh': draw(ice.cases(max_size=3, max_zones=3, variables=vs)), 'merge': merge,
         'other': draw(M.mesh_cases(max_size=2, max_comps=1, variables=vs))}
    if merge:
        kinds = ['zones', 'topo', 'topo', 'put', 'read', 'clean', 'remesh', 'remesh', 'relax']
        ends = ['remesh', 'relax', 'hier', 'hier']
    else:
        kinds = ['explode', 'explode', 'put', 'read', 'clean', 'relax']
        ends = ['explode', 'explode', 'relax']
    c['ops'] = draw(st.lists(one(kinds), min_size=1, max_size=5))
    c['last'] = draw(one(ends))
    return c


def parts():
    return [Part('merged', case(), history, 500, rule='something asked before has changed since'),
            Part('unmerged', case(merge=0), history, 150, rule='something asked before has changed since')]
