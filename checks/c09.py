"""C09: each .cry file is a faithful, self-consistent piece of the grid."""
import os

from vf import cry
from vf import decomp as D
from vf import mesh as M
from vf.core import Part, check
from vf.util import load
from hypothesis import strategies as st

ID = 'C09'
RULE = 'Case = generated mesh and decomposition; non-trivial with at least two non-empty zones.'


def files(c, ctx):
    """Store for MPI; returns (mesh model, grid, parsed files)."""
    m = M.build(c['mesh'])
    g = load(m, c['merge'])
    for s in c['steps']:
        D.apply(g, s, D.fixed_names(g, s['fix']))
    os.makedirs('d')
    if c['stale']:
        # Left behind by an earlier run: longer files of the same names.
        for i in range(len(g.Zones)):
            with open('d/base_{0:05d}_{1}.cry'.format(i, c['ts']), 'w') as f:
                f.write('stale line of an earlier run\n' * 9000)
    g.store_mpi('d/base', c['ts'])
    names = sorted(os.listdir('d'))
    check(names == ['base_{0:05d}_{1}.cry'.format(i, c['ts']) for i in range(len(g.Zones))],
          '{0} zones, files {1}', len(g.Zones), names)
    return m, g, [cry.parse('d/' + n) for n in names]


def model_edges(m, merge):
    """{(local zone or None, pair of points): cells} as the grid sees them."""
    order = m.file_order()
    out = {}
    for k, f in enumerate(order):
        t = m.faces[f]
        for a, b in ((0, 1), (1, 2), (0, 2)):
            p, q = sorted((t[a], t[b]))
            out.setdefault((None if merge else m.zone[f], p, q), []).append(k)
    return out


def faithful(c, ctx):
    m, g, fs = files(c, ctx)
    order = m.file_order()
    seen = []
    zone_of = {}
    for i, q in enumerate(fs):
        for k in q.gloids:
            zone_of[k] = i
    es = model_edges(m, c['merge'])
    cross = [0] * len(fs)
    edges = [set() for _ in fs]
    for key, cells in es.items():
        zs = {zone_of.get(k) for k in cells}
        for z in zs:
            if z is not None:
                edges[z].add(key)
                cross[z] += len(zs) - 1
    for i, (z, q) in enumerate(zip(g.Zones, fs)):
        check(q.title == z.Name, 'title of file {0} is {1!r}', i, q.title)
        check(q.mpi == i, 'number {0} in file {1}', q.mpi, i)
        check(q.gloids == [f.GloId for f in z.Faces], 'identifiers of cells of zone {0}', i)
        check(all(0 <= k < len(order) for k in q.gloids), 'identifiers of cells of zone {0}', i)
        seen += q.gloids
        check(q.ncross == cross[i], 'zone {0} declares {1} cross edges, there are {2}', i, q.ncross,
              cross[i])
        check(q.ne == len(edges[i]), 'zone {0} declares {1} edges, there are {2}', i, q.ne,
              len(edges[i]))
        used = set()
        for k, (gid, t) in enumerate(zip(q.gloids, q.face_nodes)):
            f = order[gid]
            check(all(0 <= n < q.nn for n in t) and len(set(t)) == 3, 'corners {0} of a cell', t)
            got = tuple(q.nodes[n] for n in t)
            want = m.corners(f)
            check(M.cyclic(got) == M.cyclic(want), 'zone {0}, cell {1}: corners {2} instead of {3}', i,
                  gid, got, want)
            used.update(t)
            for v in cry.VARIABLES[4:]:
                w = m.data[v][f] if v in m.vars else 0.0
                check(M.same_float(q.data[v][k], w), 'zone {0}, cell {1}: {2} is {3!r} instead of {4!r}', i, gid,
                      v, q.data[v][k], w)
            e = q.face_edges[k]
            check(all(0 <= x < q.ne for x in e) and len(set(e)) == 3, 'edges {0} of a cell', e)
            check({frozenset(q.edge_nodes[x]) for x in e} ==
                  {frozenset((t[a], t[b])) for a, b in ((0, 1), (1, 2), (0, 2))},
                  'zone {0}: edges of cell {1} do not join its corners', i, gid)
        check(used == set(range(q.nn)), 'zone {0} lists {1} nodes, its cells use {2}', i, q.nn,
              len(used))
        check({x for e in q.face_edges for x in e} == set(range(q.ne)),
              'zone {0} lists edges its cells do not use', i)
        check(all(len(set(p)) == 2 and all(0 <= n < q.nn for n in p) for p in q.edge_nodes),
              'zone {0}: bad edge ends', i)
        check(len({frozenset(p) for p in q.edge_nodes}) == q.ne, 'zone {0} lists an edge twice', i)
    check(sorted(seen) == list(range(len(order))), 'the files do not hold every cell exactly once')
    ctx.cls('zones {0}'.format(min(len(fs), 8)), 'merge' if c['merge'] else 'no merge')
    ctx.nt(sum(1 for q in fs if q.nf) > 1)


@st.composite
def case(draw, merges=(1, 1, 1, 0)):
    return {'mesh': draw(M.mesh_cases(big=24, max_size=5, max_zones=5, emptyzones=True, dupnames=True,
                                      min_vars=0)),
            'merge': draw(st.sampled_from(list(merges))),
            'stale': draw(st.sampled_from([0, 0, 0, 1])),
            'ts': draw(st.sampled_from(['000000000000', '000000012345'])),
            'steps': draw(st.lists(D.step(max_n=9), min_size=0, max_size=2))}


def parts():
    return [Part('faithful', case(), faithful, 1500,
                 rule='every table of every file against the generated mesh')]
