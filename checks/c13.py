"""C13: subdividing cells and edges keeps a valid mesh of the same surface."""
from vf import mesh as M
from vf import topo
from vf.core import Part, check
from vf.inv import corners
from vf.util import load
from hypothesis import strategies as st

ID = 'C13'
RULE = ('Case = generated mesh plus a history of subdivisions; non-trivial when at least two were '
        'carried out.')
ASSUMPTIONS = ['New points are strictly inside their cell or edge and not closer than 1e-8 to an existing node.']

OWN = st.sampled_from([0, 0, 1, 2, 3])


@st.composite
def op(draw, kinds):
    return {'op': draw(st.sampled_from(kinds)), 'i': draw(st.integers(0, 400)),
            'u': [draw(st.integers(1, 9)) for _ in range(3)], 'fit': draw(st.sampled_from([1, 1, 1, 0]))}


def run(c, ctx):
    m = M.build(c['mesh'])
    g = load(m)
    topo.own_data(g, c['own'])
    area = sum(M.tri_area(*corners(f)) for f in g.Faces)
    done = 0
    for s in c['ops']:
        k = topo.step(g, s)
        if k:
            ctx.cls(k)
            done += k != 'refused'
    topo.finish(g, area)
    ctx.cls('zones', len(g.Zones))
    ctx.nt(done > 1)


def single(c, ctx):
    """Every edge and every cell of one grid, one operation each on a fresh grid."""
    m = M.build(c['mesh'])
    g = load(m)
    n = {'divide': len(g.Faces), 'cut': len(g.Edges), 'cut1': len(g.Edges), 'cut2': len(g.Edges)}
    for i in range(min(n[c['op']], 12)):
        g = load(m)
        topo.own_data(g, c['own'])
        s = {'op': c['op'], 'i': i + c['from'], 'u': c['u'], 'fit': 0}
        k = topo.step(g, s)
        if k:
            ctx.cls(k)
            ctx.nt(k != 'refused')


@st.composite
def case(draw):
    return {'mesh': draw(M.mesh_cases(max_size=3, hubs=16, max_zones=4, dupnames=True, flip=True, scales=(1.0, 37.0, 1e-2))),
            'own': draw(OWN),
            'ops': draw(st.lists(op(['divide', 'cut', 'cut', 'cut1', 'cut2', 'cut2']), min_size=1,
                                 max_size=12))}


@st.composite
def case1(draw):
    return {'mesh': draw(M.mesh_cases(max_size=2, max_zones=3, dupnames=True, flip=True, scales=(1.0,))),
            'own': draw(OWN), 'op': draw(st.sampled_from(['divide', 'cut', 'cut1', 'cut2'])),
            'from': draw(st.integers(0, 20)), 'u': [draw(st.integers(1, 9)) for _ in range(3)]}


def parts():
    return [Part('history', case(), run, 400, rule='at least two subdivisions carried out'),
            Part('each', case1(), single, 200, rule='an operation carried out')]
