"""C14: collapsing an edge and flipping a diagonal keep a valid mesh."""
from vf import mesh as M
from vf import topo
from vf.core import Part
from vf.util import load
from checks.c13 import op
from hypothesis import strategies as st

ID = 'C14'
RULE = ('Case = generated mesh plus a history with collapses and flips; non-trivial when one of these '
        'was carried out.')
ASSUMPTIONS = ['Collapsed edges satisfy the link condition; flipped cells make no existing edge and no '
               'degenerate cell; new positions are not closer than 1e-8 to an existing node.']


def run(c, ctx):
    m = M.build(c['mesh'])
    g = load(m)
    topo.own_data(g, c['own'])
    for s in c['ops']:
        try:
            k = topo.step(g, s)
        except Exception:                                     # noqa: BLE001
            if s['op'] not in ('collapse', 'flip'):
                ctx.skip('a subdivision failed (C13)')
                return
            raise
        if k:
            ctx.cls(k)
            ctx.nt(k.split()[0] in ('collapse', 'flip'))
    topo.finish(g, None)


def single(c, ctx):
    m = M.build(c['mesh'])
    g = load(m)
    n = {'flip': len(g.Faces), 'collapse': len(g.Edges)}[c['op']]
    for i in range(min(n, 12)):
        g = load(m)
        topo.own_data(g, c['own'])
        k = topo.step(g, {'op': c['op'], 'i': i + c['from'], 'u': [1, 1, 1], 'fit': 0})
        if k:
            ctx.cls(k)
            ctx.nt(k != 'refused')
            topo.finish(g, None)

OWN = st.sampled_from([0, 0, 1, 2, 3])


@st.composite
def case(draw):
    return {'mesh': draw(M.mesh_cases(max_size=4, hubs=16, max_zones=4, dupnames=True, scales=(1.0, 37.0, 1e-2))),
            'own': draw(OWN),
            'ops': draw(st.lists(op(['collapse', 'collapse', 'flip', 'flip', 'divide', 'cut', 'cut1',
                                     'cut2']), min_size=1, max_size=12))}


@st.composite
def case1(draw):
    return {'mesh': draw(M.mesh_cases(max_size=3, max_zones=3, dupnames=True, scales=(1.0,))),
            'own': draw(OWN), 'op': draw(st.sampled_from(['collapse', 'flip'])), 'from': draw(st.integers(0, 40))}


def parts():
    return [Part('history', case(), run, 400, rule='a collapse or a flip carried out'),
            Part('each', case1(), single, 120, rule='an operation carried out')]
