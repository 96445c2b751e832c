"""Structural invariants of a live grid object (public collections only)."""
from .core import check


def ids(xs):
    return [id(x) for x in xs]


def incidence(g, zones=True, glo=True, manifold=True):
    """Full two-way incidence of nodes, edges, cells, zones."""
    N, E, F, Z = set(ids(g.Nodes)), set(ids(g.Edges)), set(ids(g.Faces)), set(ids(g.Zones))
    check(len(N) == len(g.Nodes), 'a node is listed twice')
    check(len(E) == len(g.Edges), 'an edge is listed twice')
    check(len(F) == len(g.Faces), 'a cell is listed twice')
    if glo:
        for what, xs in (('node', g.Nodes), ('edge', g.Edges), ('cell', g.Faces)):
            check(sorted(x.GloId for x in xs) == list(range(len(xs))),
                  '{0} identifiers are not 0..n-1: {1}', what, [x.GloId for x in xs][:40])
    nf, ne, ef = {}, {}, {}
    for f in g.Faces:
        check(len(f.Nodes) == 3 and len(set(ids(f.Nodes))) == 3, 'cell {0} has corners {1}',
              f.GloId, [n.GloId for n in f.Nodes])
        check(len(f.Edges) == 3 and len(set(ids(f.Edges))) == 3, 'cell {0} has {1} edges',
              f.GloId, len(f.Edges))
        want = {frozenset((id(f.Nodes[i]), id(f.Nodes[j]))) for i, j in ((0, 1), (1, 2), (0, 2))}
        got = {frozenset(ids(e.Nodes)) for e in f.Edges}
        check(want == got, 'edges of cell {0} do not join its corners', f.GloId)
        for n in f.Nodes:
            check(id(n) in N, 'cell {0} uses a node outside the grid', f.GloId)
            nf.setdefault(id(n), []).append(id(f))
        for e in f.Edges:
            check(id(e) in E, 'cell {0} uses an edge outside the grid', f.GloId)
            ef.setdefault(id(e), []).append(id(f))
    pairs = set()
    for e in g.Edges:
        check(len(e.Nodes) == 2 and e.Nodes[0] is not e.Nodes[1], 'edge {0} has {1} ends',
              e.GloId, len(e.Nodes))
        k = frozenset(ids(e.Nodes))
        check(k not in pairs, 'two edges join the same nodes {0}', [n.GloId for n in e.Nodes])
        pairs.add(k)
        for n in e.Nodes:
            check(id(n) in N, 'edge {0} uses a node outside the grid', e.GloId)
            ne.setdefault(id(n), []).append(id(e))
        check(sorted(ids(e.Faces)) == sorted(ef.get(id(e), [])),
              'edge {0} does not list its cells', e.GloId)
        check(1 <= len(e.Faces), 'edge {0} belongs to no cell', e.GloId)
        if manifold:
            check(len(e.Faces) <= 2, 'edge {0} has {1} cells', e.GloId, len(e.Faces))
    for n in g.Nodes:
        check(sorted(ids(n.Faces)) == sorted(nf.get(id(n), [])), 'node {0} does not list its cells',
              n.GloId)
        check(sorted(ids(n.Edges)) == sorted(ne.get(id(n), [])), 'node {0} does not list its edges',
              n.GloId)
    if zones:
        zone_membership(g, Z)


def zone_membership(g, Z=None):
    Z = Z or set(ids(g.Zones))
    check(len(Z) == len(g.Zones), 'a zone is listed twice')
    zf, zn, ze = {}, {}, {}
    for f in g.Faces:
        check(f.Zone is not None and id(f.Zone) in Z, 'cell {0} is in no zone of the grid', f.GloId)
        k = id(f.Zone)
        zf.setdefault(k, []).append(id(f))
        zn.setdefault(k, set()).update(ids(f.Nodes))
        ze.setdefault(k, set()).update(ids(f.Edges))
    for i, z in enumerate(g.Zones):
        k = id(z)
        check(sorted(ids(z.Faces)) == sorted(zf.get(k, [])), 'zone {0} does not list its cells', i)
        check(sorted(ids(z.Nodes)) == sorted(zn.get(k, set())),
              'zone {0} lists {1} nodes, its cells have {2}', i, len(z.Nodes), len(zn.get(k, ())))
        check(sorted(ids(z.Edges)) == sorted(ze.get(k, set())),
              'zone {0} lists {1} edges, its cells have {2}', i, len(z.Edges), len(ze.get(k, ())))


def pos(n):
    return (n.P.X, n.P.Y, n.P.Z)


def corners(f):
    return tuple(pos(n) for n in f.Nodes)
