"""C03: coincident nodes of different zones are merged exactly."""
import random
from fractions import Fraction

from vf import inv
from vf import mesh as M
from vf.core import Part, check
from vf.util import load, tri_key
from hypothesis import strategies as st

ID = 'C03'
RULE = ('Case = mesh whose zones carry perturbed copies of the shared nodes; non-trivial when some '
        'node is shared between zones.')
UNIT = Fraction(1, 10 ** 10)
ASSUMPTIONS = ['Coordinates closer than 1% of a unit to a rounding tie are moved away from it.']


def rounded(x):
    """Exact number of 1e-10 units nearest to x."""
    q = Fraction(x) / UNIT
    return (q + Fraction(1, 2)).__floor__()


def near_tie(x):
    q = Fraction(x) / UNIT + Fraction(1, 2)
    d = q - q.__floor__()
    return min(d, 1 - d) < Fraction(1, 100)


def settle(x):
    for _ in range(50):
        if not near_tie(x):
            return x
        x += 0.13e-10 if abs(x) < 1e4 else abs(x) * 1e-15
    return float(round(x, 10))


def merge(c, ctx):
    import gsu
    m = M.build(c)
    r = random.Random(c['seed'] + 5)
    zones = []
    shared = {}
    for zi in range(len(m.znames)):
        loc = M.local_layout(m, zi, c['order'], c['seed'])
        ps = []
        for g in loc:
            shared.setdefault(g, set()).add(zi)
            p = []
            for x in m.points[g]:
                k = r.randrange(10)
                u = c['units'][r.randrange(len(c['units']))] if k < c['rate'] else 0
                y = x + u * 1e-10
                if y == 0.0 and r.random() < 0.5:
                    y = -0.0
                p.append(settle(y))
            ps.append(tuple(p))
        zones.append((loc, ps))
    out = ['TITLE=""', 'VARIABLES="X", "Y", "Z"']
    for zi, (loc, ps) in enumerate(zones):
        at = {g: k for k, g in enumerate(loc)}
        fs = m.zone_faces(zi)
        out += ['ZONE T="z{0}"'.format(zi), 'NODES={0}'.format(len(ps)),
                'ELEMENTS={0}'.format(len(fs)), 'DATAPACKING=BLOCK', 'ZONETYPE=FETRIANGLE',
                'VARLOCATION=([4-3]=CELLCENTERED)']
        out += [' '.join(repr(p[i]) for p in ps) for i in range(3)]
        out += [' '.join(str(at[g] + 1) for g in m.faces[f]) for f in fs]
    with open('a.dat', 'w') as f:
        f.write('\n'.join(out) + '\n')
    ctx.nt(any(len(s) > 1 for s in shared.values()))
    # Model.
    first, nodes, cells = {}, [], []
    for zi, (loc, ps) in enumerate(zones):
        ids = {}
        for g, p in zip(loc, ps):
            k = tuple(rounded(x) for x in p)
            if k not in first:
                first[k] = len(nodes)
                nodes.append(p)
            ids[g] = first[k]
        cells += [tuple(ids[g] for g in m.faces[f]) for f in m.zone_faces(zi)]
    if any(len(set(t)) < 3 for t in cells):
        ctx.skip('degenerate')
        return
    per = {}
    for t in cells:
        for a, b in ((0, 1), (1, 2), (0, 2)):
            k = frozenset((t[a], t[b]))
            per[k] = per.get(k, 0) + 1
    if max(per.values()) > 2:
        ctx.skip('non-manifold')
        return
    total = sum(len(ps) for _, ps in zones)
    ctx.cls('some merged' if len(nodes) < total else 'none merged')
    g = gsu.Grid()
    g.load('a.dat')
    check(len(g.Nodes) == len(nodes), '{0} nodes expected after merging, {1} found', len(nodes),
          len(g.Nodes))
    check([inv.pos(n) for n in g.Nodes] == nodes, 'a merged node moved')
    check([tuple(n.GloId for n in f.Nodes) for f in g.Faces] == cells, 'corners differ')
    check(len(g.Edges) == len(per), '{0} edges expected, {1} found', len(per), len(g.Edges))
    h = gsu.Grid()
    h.load('a.dat', is_merge_same_nodes=False)
    check([inv.pos(n) for n in h.Nodes] == [p for _, ps in zones for p in ps],
          'without merging {0} nodes expected, {1} found', total, len(h.Nodes))
    check(all(len({id(f.Zone) for f in e.Faces}) == 1 for e in h.Edges),
          'an edge connects two zones without merging')
    k = 0
    for zi, (loc, ps) in enumerate(zones):
        at = {g_: k + i for i, g_ in enumerate(loc)}
        k += len(ps)
        check([tuple(n.GloId for n in f.Nodes) for f in h.Zones[zi].Faces] ==
              [tuple(at[x] for x in m.faces[f]) for f in m.zone_faces(zi)],
              'corners differ without merging')
    check(g.faces_count() == h.faces_count() == len(cells), 'number of cells differs')


@st.composite
def case(draw):
    c = draw(M.mesh_cases(big=12, variables=[], max_size=4, max_zones=4,
                          scales=(1.0, 1e-3, 1e3, 1e-5, 1e-7, 1e6)))
    if c['scale'] < 1e-3 or c['scale'] > 1e5:
        c['shift'] = [0.0, 0.0, 0.0]
    c['order'] = draw(st.sampled_from(['first', 'sorted', 'random']))
    c['units'] = draw(st.lists(st.sampled_from([-3, -1, -0.6, -0.4, -0.2, -0.05, 0.05, 0.2, 0.3, 0.45,
                                                0.55, 0.8, 1, 2, 10]), min_size=1, max_size=4))
    c['rate'] = draw(st.sampled_from([0, 1, 3, 10]))
    return c


def cut(c, ctx):
    """Cut into zones, store, load with and without merging."""
    import gsu
    m = M.build(c)
    g = load(m)
    n0 = (len(g.Nodes), len(g.Edges), len(g.Faces))

    def adjacency(g):
        return sorted(tuple(sorted(map(tri_key, e.Faces))) for e in g.Edges)
    before = adjacency(g)
    if c['how'] == 'linear':
        g.decompose_linear(c['n'])
    elif c['how'] == 'random':
        g.decompose_random(c['n'])
    elif c['how'] == 'farhat':
        g.decompose_farhat(c['n'])
    else:
        g.decompose_hierarchical(levels=c['n'])
    per_zone = [len({id(n) for f in z.Faces for n in f.Nodes}) for z in g.Zones]
    g.store('b.dat')
    h = gsu.Grid()
    h.load('b.dat')
    ctx.nt(len(g.Zones) > 1 and len(m.faces) > 3)
    check((len(h.Nodes), len(h.Edges), len(h.Faces)) == n0,
          'nodes, edges, cells {0} became {1} after cutting and loading', n0,
          (len(h.Nodes), len(h.Edges), len(h.Faces)))
    check(adjacency(h) == before, 'adjacency changed after cutting and loading')
    h.load('b.dat', is_merge_same_nodes=False)
    check(len(h.Nodes) == sum(per_zone), 'without merging {0} nodes expected, {1} found',
          sum(per_zone), len(h.Nodes))
    check(all(not e.is_cross() for e in h.Edges), 'an edge connects two zones without merging')


@st.composite
def cut_case(draw):
    c = draw(M.mesh_cases(big=12, variables=[], max_size=5))
    c['how'] = draw(st.sampled_from(['linear', 'random', 'farhat', 'hierarchical']))
    c['n'] = draw(st.integers(1, 5))
    return c


def parts():
    return [Part('merge', case(), merge, 1600,
                 rule='reference dictionary of exactly rounded coordinates'),
            Part('cut', cut_case(), cut, 500, rule='non-trivial when there are at least two zones')]
