"""C30: explosion and array views."""
from vf import decomp as D
from vf import mesh as M
from vf.core import Part, check
from vf.inv import corners, pos
from vf.util import load, tri_key
from hypothesis import strategies as st

ID = 'C30'
RULE = 'Case = generated mesh; non-trivial with at least two zones.'


def mean(ps):
    return [sum(p[i] for p in ps) / len(ps) for i in range(3)]


def explode(c, ctx):
    import gsu
    m = M.build(c['mesh'])
    g = load(m, False)
    k = c['k']
    g_mean = mean([pos(n) for n in g.Nodes])
    want = {}
    for z in g.Zones:
        if not z.Nodes:
            continue
        zm = mean([pos(n) for n in z.Nodes])
        for n in z.Nodes:
            want[id(n)] = [pos(n)[i] + (zm[i] - g_mean[i]) * k for i in range(3)]
    old = [pos(n) for n in g.Nodes]
    data = [dict(f.Data) for f in g.Faces]
    topo = [[n.GloId for n in f.Nodes] for f in g.Faces]
    zones = [[f.GloId for f in z.Faces] for z in g.Zones]
    g.move_from_mean_point(k)
    size = max(max(abs(x) for x in p) for p in old) * (1 + abs(k)) + 1e-300
    for n in g.Nodes:
        check(all(abs(a - b) <= 1e-9 * size for a, b in zip(pos(n), want[id(n)])),
              'node {0} moved to {1} instead of {2}', n.GloId, pos(n), want[id(n)])
    if k == 0:
        check([pos(n) for n in g.Nodes] == old, 'factor zero moved a node')
    check(data == [dict(f.Data) for f in g.Faces], 'explosion changed data')
    check(topo == [[n.GloId for n in f.Nodes] for f in g.Faces], 'explosion changed corners')
    check(zones == [[f.GloId for f in z.Faces] for z in g.Zones], 'explosion changed zones')
    # Storing shows the moved coordinates.
    g.store('b.dat')
    h = gsu.Grid()
    h.load('b.dat', is_merge_same_nodes=False)
    check([tri_key(f) for f in h.Faces] == [tri_key(f) for f in g.Faces], 'stored explosion differs')
    ctx.nt(len(g.Zones) > 1 and k != 0)


def views(c, ctx):
    m = M.build(c['mesh'])
    g = load(m, c['merge'])
    for s in c['steps']:
        D.apply(g, s, D.fixed_names(g, s['fix']))
    present(g, list(m.vars))
    ctx.nt(len(g.Zones) > 1)


def present(g, names):
    """Array views and triangles against the present objects."""
    import numpy as np
    cols = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor']
    for z in g.Zones:
        if not z.Faces:
            continue
        a = z.coords_np_array()
        check(a.shape == (len(z.Nodes), 3) and a.dtype == np.float64, 'coordinates of shape {0}', a.shape)
        check([tuple(r) for r in a.tolist()] == [pos(n) for n in z.Nodes], 'coordinates differ')
        b = z.variables_np_array()
        check(b.shape == (len(z.Faces), 12) and b.dtype == np.float64, 'variables of shape {0}', b.shape)
        for f, row in zip(z.Faces, b.tolist()):
            check(row[0] == f.GloId, 'identifier {0} of cell {1}', row[0], f.GloId)
            for v, x in zip(cols, row[1:]):
                check(x == f[v], '{0} of cell {1}: {2} instead of {3}', v, f.GloId, x, f[v])
        d = z.connectivity_list_faces_nodes()
        check(d.shape == (len(z.Faces), 3), 'connectivity of shape {0}', d.shape)
        check([[int(x) for x in r] for r in d.tolist()] == [[n.GloId for n in f.Nodes] for f in z.Faces],
              'connectivity differs')
        for v in list(names) + ['absent']:
            check(z.get_variable(v).tolist() == [f.Data.get(v, 0.0) for f in z.Faces],
                  'variable {0} differs', v)
    ts = g.get_triangles_list()
    check(len(ts) == len(g.Faces), '{0} triangles of {1} cells', len(ts), len(g.Faces))
    for t, f in zip(ts, g.Faces):
        check(t.BackRef is f, 'triangle of cell {0} refers to another cell', f.GloId)
        check(tuple((p.X, p.Y, p.Z) for p in t.Points) == corners(f), 'triangle of cell {0}', f.GloId)
        check(all(p is not n.P for p, n in zip(t.Points, f.Nodes)), 'triangle shares points with nodes')
        cen = f.get_center()
        for i in range(3):
            w = sum(p[i] for p in corners(f)) / 3.0
            check(abs(cen[i] - w) <= 1e-12 * max(abs(p[i]) for p in corners(f)) + 1e-300, 'centre {0}', cen)


def parts():
    return [Part('explode', st.fixed_dictionaries({
        'mesh': M.mesh_cases(big=24, max_size=4, variables=['T', 'Q']),
        'k': st.sampled_from([0.0, 0.1, 1.0, -0.5, 2.5, 1e-6, 100.0])}), explode, 700),
        Part('views', st.fixed_dictionaries({
            'mesh': M.mesh_cases(big=24, max_size=4, emptyzones=True), 'merge': st.integers(0, 1),
            'steps': st.lists(D.step(max_n=6), max_size=1)}), views, 700,
            rule='fixed columns of the variables view: identifier, T, Hw, Hi, HTC, Beta, TauX..Z')]
