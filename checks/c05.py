"""C05: every decomposition is a partition and changes nothing but zones."""
from vf import decomp as D
from vf import mesh as M
from vf.core import Part, check
from vf.util import load, snapshot, tri_key
from hypothesis import strategies as st

ID = 'C05'
RULE = 'Case = generated mesh and a history of decompositions; non-trivial with 2 or more steps.'


def histories(c, ctx):
    import gsu
    m = M.build(c['mesh'])
    g = load(m, c['merge'])
    before = snapshot(g)
    title = g.Name
    for s in c['steps']:
        D.apply(g, s, D.fixed_names(g, s['fix']))
        ctx.cls(s['op'])
        title = s['name'] if s['name'] is not None else title
        check(g.Name == title, 'title {0!r} became {1!r} by {2}', title, g.Name, s['op'])
        after = snapshot(g)
        for what, a, b in zip(('nodes', 'edges', 'cells'), before, after):
            check(a == b, '{0} changed {1}', s['op'], what)
        D.partition(g)
    if len(g.Zones) > len(m.faces):
        ctx.cls('more zones than cells')
    g.store('b.dat')
    p = M.parse_dat('b.dat')
    check([z.name for z in p.zones] == [z.Name for z in g.Zones], 'stored zones differ')
    for z, q in zip(g.Zones, p.zones):
        want = [(M.cyclic(tuple((n.P.X, n.P.Y, n.P.Z) for n in f.Nodes)),
                 [f.Data[v] for v in m.vars]) for f in z.Faces]
        got = [(M.cyclic(tuple(tuple(q.nodes[i]) for i in t)), [q.data[v][k] for v in m.vars])
               for k, t in enumerate(q.faces)]
        check(want == got, 'zone {0} was stored with other cells', z.Name)
        check(len(q.nodes) == len(z.Nodes), 'zone {0} was stored with other nodes', z.Name)
    h = gsu.Grid()
    h.load('b.dat', is_merge_same_nodes=bool(c['merge']))
    check([(z.Name, sorted(map(tri_key, z.Faces))) for z in h.Zones] ==
          [(z.Name, sorted(map(tri_key, z.Faces))) for z in g.Zones],
          'cells and zones differ after store and load')
    ctx.nt(len(c['steps']) > 1 and len(m.faces) > 1)


@st.composite
def case(draw):
    return {'mesh': draw(M.mesh_cases(big=24, max_size=5, emptyzones=True, dupnames=True,
                                      variables=['T', 'Hw', 'Q'])),
            'merge': draw(st.sampled_from([1, 1, 1, 0])),
            'steps': draw(st.lists(D.step(max_n=12), min_size=1, max_size=5))}


def parts():
    return [Part('histories', case(), histories, 1500)]
