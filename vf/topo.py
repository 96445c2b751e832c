"""Simplicial reference model of the atomic grid transformations.

The state of a grid is the multiset of its cells (corner positions up to cyclic order, data, zone).
Positions identify nodes: grids are merged and new points are kept away from existing nodes.
"""
import random
from collections import Counter
from math import dist

from . import inv
from . import mesh as M
from .core import check
from .inv import corners, pos


def cell(tri, data, zone):
    return (M.cyclic(tri), tuple(data.items()), zone)


def zone_index(g):
    return {id(z): i for i, z in enumerate(g.Zones)}


def state(g):
    zi = zone_index(g)
    return Counter(cell(corners(f), f.Data, zi[id(f.Zone)]) for f in g.Faces)


def own_data(g, seed):
    """Cells of a grid in memory may have different sets of data, in different orders."""
    if seed:
        r = random.Random(seed)
        for f in g.Faces:
            items = list(f.Data.items()) + [('q{0}'.format(k), r.uniform(-9, 9)) for k in range(3) if r.random() < 0.5]
            r.shuffle(items)
            f.Data = dict(items)


def full(cells):
    """Data as a file has them: all variables, zeros for absent ones."""
    names = list(dict.fromkeys(k for c in cells for k, _ in c[1]))
    return Counter((c[0], tuple((k, dict(c[1]).get(k, 0.0)) for k in sorted(names)), c[2])
                   for c in cells.elements())


def deep(g):
    """Everything about the grid, by identity (nothing may change when an operation refuses)."""
    return ([(id(n), pos(n), [id(x) for x in n.Edges], [id(x) for x in n.Faces], n.GloId)
             for n in g.Nodes],
            [(id(e), [id(x) for x in e.Nodes], [id(x) for x in e.Faces], e.GloId) for e in g.Edges],
            [(id(f), [id(x) for x in f.Nodes], [id(x) for x in f.Edges], f.GloId,
              tuple(f.Data.items()), id(f.Zone)) for f in g.Faces],
            [(id(z), z.Name, [id(x) for x in z.Nodes], [id(x) for x in z.Edges],
              [id(x) for x in z.Faces]) for z in g.Zones])


def sizes(g):
    return len(g.Nodes), len(g.Edges), len(g.Faces)


def free(g, *ps):
    """New points are not within merging distance of existing nodes or of one another."""
    for i, p in enumerate(ps):
        if any(dist(p, pos(n)) < 1e-8 for n in g.Nodes):
            return False
        if any(dist(p, q) < 1e-8 for q in ps[i + 1:]):
            return False
    return True


def replaced(tri, m):
    return tuple(m.get(p, p) for p in tri)


def lerp(a, b, t):
    return tuple(x + (y - x) * t for x, y in zip(a, b))


def split(tri, a, b, pts):
    """Parts of a cell whose side from a to b is cut by points (in this order)."""
    ch = [a] + list(pts) + [b]
    return [replaced(tri, {a: p, b: q}) for p, q in zip(ch, ch[1:])]


def others(g, touched):
    """Identity, number, corners and data of the cells an operation must leave alone."""
    return {id(f): (f, f.GloId, [id(n) for n in f.Nodes], tuple(f.Data.items()), id(f.Zone))
            for f in g.Faces if not any(f is t for t in touched)}


def check_others(g, rest):
    now = {id(f): f for f in g.Faces}
    for k, (f, glo, nodes, data, zone) in rest.items():
        check(k in now, 'cell {0} disappeared', glo)
        check((f.GloId, [id(n) for n in f.Nodes], tuple(f.Data.items()), id(f.Zone)) ==
              (glo, nodes, data, zone), 'cell {0} has changed', glo)


def numbers(g):
    """Global identifiers of all objects."""
    return [{id(x): (x, x.GloId) for x in xs} for xs in (g.Nodes, g.Edges, g.Faces)]


def check_numbers(g, old, what):
    """An object that survives keeps its identifier, unless this is too big for what is left."""
    for name, was, xs in zip(('node', 'edge', 'cell'), old, (g.Nodes, g.Edges, g.Faces)):
        for x in xs:
            if id(x) in was and was[id(x)][1] < len(xs):
                check(x.GloId == was[id(x)][1], '{0}: identifier {1} of a {2} became {3}', what,
                      was[id(x)][1], name, x.GloId)


def heirs(g, parts, what):
    """Every divided cell passes its identifier on to one of its parts."""
    for glo, tris in parts:
        got = [M.cyclic(corners(f)) for f in g.Faces if f.GloId == glo]
        check(len(got) == 1 and got[0] in [M.cyclic(t) for t in tris],
              '{0}: identifier {1} of a divided cell did not stay with a part of it', what, glo)


def after(g, before, gone, new, what):
    """Check the grid against the model after an accepted operation."""
    want = before - Counter(gone)
    got = state(g)
    check(got == want + Counter(new), '{0}: cells gone {1}, cells made {2}, expected {3}', what,
          list((before - got).elements())[:8], list((got - before).elements())[:8],
          new[:8])


def consistent(g, size, delta, what):
    check(sizes(g) == tuple(s + d for s, d in zip(size, delta)),
          '{0}: nodes, edges, cells {1} became {2}', what, size, sizes(g))
    inv.incidence(g)
    check(len({id(f.Data) for f in g.Faces}) == len(g.Faces), '{0}: cells share data', what)
    check(len({pos(n) for n in g.Nodes}) == len(g.Nodes), '{0}: two nodes at one place', what)


def border_node(n):
    return any(len(e.Faces) == 1 for e in n.Edges)


def neighbours(n):
    return {id(x) for e in n.Edges for x in e.Nodes if x is not n}


def link_edges(n):
    return {frozenset(id(x) for x in f.Nodes if x is not n) for f in n.Faces}


def collapsible(e):
    a, b = e.Nodes
    opp = {id(n) for f in e.Faces for n in f.Nodes if n is not a and n is not b}
    if len(opp) != 2 or (border_node(a) and border_node(b)):
        return False
    return neighbours(a) & neighbours(b) == opp and not (link_edges(a) & link_edges(b))


def step(g, s):
    """Apply one generated operation and check it; returns the kind of what happened."""
    from geom import Vect as V
    zi = zone_index(g)
    before, size, op = state(g), sizes(g), s['op']
    u, v, w = s['u']

    def key(f):
        return cell(corners(f), f.Data, zi[id(f.Zone)])

    def make(f, tris):
        return [cell(t, f.Data, zi[id(f.Zone)]) for t in tris]

    def vect(p):
        return V(*p)

    if op == 'divide':
        f = g.Faces[s['i'] % len(g.Faces)]
        a, b, c = corners(f)
        t = u + v + w
        p = tuple((u * x + v * y + w * z) / t for x, y, z in zip(a, b, c))
        if not free(g, p):
            return None
        gone, new = [key(f)], make(f, [(a, b, p), (b, c, p), (c, a, p)])
        rest, old, glo = others(g, [f]), numbers(g), f.GloId
        g.divide_face(f, vect(p))
        check_others(g, rest)
        check_numbers(g, old, 'dividing a cell')
        heirs(g, [(glo, [x[0] for x in new])], 'dividing a cell')
        after(g, before, gone, new, 'dividing a cell')
        consistent(g, size, (1, 3, 2), 'dividing a cell')
        return 'divide'

    if op in ('cut', 'cut1', 'cut2'):
        es = [e for e in g.Edges if (len(e.Faces) == 1) == (op == 'cut1' or s['i'] % 3 == 0)] \
            if s['fit'] else g.Edges
        if not es:
            es = g.Edges
        e = es[s['i'] % len(es)]
        a, b = pos(e.Nodes[0]), pos(e.Nodes[1])
        lo, hi = u / (u + v + w), (u + v) / (u + v + w)
        ps = [lerp(a, b, lo), lerp(a, b, hi)] if op == 'cut2' else [lerp(a, b, lo)]
        if not free(g, *ps):
            return None
        k = len(e.Faces)
        ok = op == 'cut2' or k == (2 if op == 'cut' else 1)
        zone_cross = len({id(f.Zone) for f in e.Faces}) > 1
        gone = [key(f) for f in e.Faces]
        new, parts, old = [], [], numbers(g)
        for f in e.Faces:
            parts.append((f.GloId, split(corners(f), a, b, ps)))
            new += make(f, parts[-1][1])
        rest = others(g, e.Faces)
        whole = None if ok else deep(g)
        if op == 'cut2':
            args = [vect(p) for p in (ps if s['fit'] else ps[::-1])]
            r = g.cut_edge_with_two_nodes(e, *args)
        else:
            r = (g.cut_edge if op == 'cut' else g.cut_single_edge)(e, vect(ps[0]))
        what = {'cut': 'cutting an inner edge', 'cut1': 'cutting a border edge',
                'cut2': 'cutting an edge by two points'}[op]
        check(bool(r) == ok, '{0}: returned {1} for an edge with {2} cells', what, r, k)
        if not ok:
            check(deep(g) == whole, '{0}: refused, but the grid has changed', what)
            return 'refused'
        check_others(g, rest)
        check_numbers(g, old, what)
        heirs(g, parts, what)
        after(g, before, gone, new, what)
        n = len(ps)
        consistent(g, size, (n, n + k * n, k * n), what)
        return op + (' cross' if zone_cross else '')

    if op == 'collapse':
        es = [e for e in g.Edges if len(e.Faces) == 2 and collapsible(e)] if s['fit'] else g.Edges
        if not es:
            return None
        e = es[s['i'] % len(es)]
        if len(e.Faces) == 1:
            whole = deep(g)
            r = g.collapse_edge(e)
            check(not r and deep(g) == whole, 'collapsing a border edge: {0}, grid changed: {1}', r,
                  deep(g) != whole)
            return 'refused'
        if not collapsible(e):
            return None
        a, b = pos(e.Nodes[0]), pos(e.Nodes[1])
        mid = tuple((x + y) * 0.5 for x, y in zip(a, b))
        if not free(g, mid):
            return None
        cross = len({id(f.Zone) for n in e.Nodes for f in n.Faces}) > 1
        dead = list(e.Faces)
        gone = [key(f) for f in {id(f): f for n in e.Nodes for f in n.Faces}.values()]
        kept = [f for f in {id(f): f for n in e.Nodes for f in n.Faces}.values()
                if not any(f is d for d in dead)]
        new = [cell(replaced(corners(f), {a: mid, b: mid}), f.Data, zi[id(f.Zone)]) for f in kept]
        outside = border_node(e.Nodes[0]) or border_node(e.Nodes[1])
        old = numbers(g)
        r = g.collapse_edge(e)
        check_numbers(g, old, 'collapsing an edge')
        check(bool(r), 'collapsing an inner edge: returned {0}', r)
        got = [n for n in g.Nodes if dist(pos(n), mid) <= 1e-12 * max(1.0, dist(a, b), dist(a, (0, 0, 0)))]
        check(len(got) == 1, 'collapsing an edge: {0} nodes in its middle', len(got))
        m2 = pos(got[0])
        new = [cell(replaced(t[0], {mid: m2}), dict(t[1]), t[2]) for t in new]
        after(g, before, gone, new, 'collapsing an edge')
        consistent(g, size, (-1, -3, -2), 'collapsing an edge')
        return 'collapse' + (' cross' if cross else '') + (' at border' if outside else '')

    # flip
    f = g.Faces[s['i'] % len(g.Faces)]
    ls = [dist(pos(e.Nodes[0]), pos(e.Nodes[1])) for e in f.Edges]
    cand = [e for e, x in zip(f.Edges, ls) if x >= max(ls) * (1 - 1e-9)]
    options, cross = [], False
    for e in cand:
        if len(e.Faces) == 1:
            options.append(None)
            continue
        h = e.Faces[0] if e.Faces[1] is f else e.Faces[1]
        na, nb = e.Nodes
        nc = [n for n in f.Nodes if n is not na and n is not nb][0]
        nd = [n for n in h.Nodes if n is not na and n is not nb][0]
        if nc is nd or id(nd) in neighbours(nc):
            return None
        a, b, c, d = map(pos, (na, nb, nc, nd))
        if min(M.tri_area(a, d, c), M.tri_area(d, b, c)) <= 1e-6 * M.tri_area(*corners(f)):
            return None
        t1, t2 = replaced(corners(f), {b: d}), replaced(corners(f), {a: d})
        cross = cross or f.Zone is not h.Zone
        gone = Counter([key(f), key(h)])
        for x, y in ((f, h), (h, f)):
            options.append((gone, Counter(make(x, [t1]) + make(y, [t2]))))
    whole = deep(g)
    rest = None
    if len(cand) == 1 and len(cand[0].Faces) == 2:
        rest = others(g, cand[0].Faces)
    old, owners = numbers(g), Counter((x.GloId, tuple(x.Data.items()), id(x.Zone)) for x in g.Faces)
    r = g.collapse_face(f)
    if not r:
        check(None in options, 'flipping: refused for an inner edge')
        check(deep(g) == whole, 'flipping: refused, but the grid has changed')
        return 'refused'
    check_numbers(g, old, 'flipping')
    check(Counter((x.GloId, tuple(x.Data.items()), id(x.Zone)) for x in g.Faces) == owners,
          'flipping: identifiers, data and zones of the two cells were mixed')
    if rest:
        check_others(g, rest)
    got = state(g)
    acc = [o for o in options if o is not None]
    check(any(got == before - x + y for x, y in acc),
          'flipping: cells gone {0}, cells made {1}', list((before - got).elements())[:6],
          list((got - before).elements())[:6])
    consistent(g, size, (0, 0, 0), 'flipping')
    return 'flip' + (' cross' if cross else '')


def finish(g, area0):
    """The transformed grid is stored, loaded and decomposed like any other."""
    area = sum(M.tri_area(*corners(f)) for f in g.Faces)
    if area0 is not None:
        check(abs(area - area0) <= 1e-9 * area0, 'area {0} became {1}', area0, area)
    import gsu
    want = state(g)
    g.store('out.dat')
    h = gsu.Grid()
    h.load('out.dat')
    check(len(h.Faces) == len(g.Faces) and len(h.Nodes) == len(g.Nodes) and len(h.Edges) == len(g.Edges),
          'stored grid: nodes, edges, cells {0} became {1}', sizes(g), sizes(h))
    inv.incidence(h)

    check(state(g) == want, 'storing changed the grid')
    # A point put at a node is this node.
    n0 = len(g.Nodes)
    for n in list(g.Nodes):
        r = g.add_node(gsu.Node(type(n.P)(*pos(n))), True)
        check(r is n and len(g.Nodes) == n0, 'a point put at node {0} {1} does not meet it', n.GloId,
              pos(n))
    b, want = full(state(h)), full(want)
    check(b == want, 'stored grid is loaded with other cells: {0} instead of {1}',
          list((b - want).elements())[:4], list((want - b).elements())[:4])
    from . import decomp
    g.decompose_hierarchical(levels=2)
    decomp.partition(g)
    g.decompose_linear(count=3)
    decomp.partition(g)
