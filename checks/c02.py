"""C02: complete and consistent incidence structure after a load."""
import random

from vf import inv
from vf import mesh as M
from vf.core import Part, check
from vf.util import raises
from hypothesis import strategies as st

ID = 'C02'
RULE = ('Case = generated mesh plus duplicated/unreferenced node records; non-trivial when it has an '
        'inner edge and at least 2 zones or duplicated records.')


def records(m, c):
    """Per zone: list of node records (point index) and cells as record numbers."""
    r = random.Random(c['seed'] + 17)
    out = []
    for zi in range(len(m.znames)):
        loc = M.local_layout(m, zi, c['order'], c['seed'])
        recs = list(loc)
        alt = {}
        for g in loc:
            alt[g] = [loc.index(g)]
        for _ in range(c['dup']):
            if loc:
                g = r.choice(loc)
                alt[g].append(len(recs))
                recs.append(g)
        # Unreferenced records: None is a fresh position.
        for k in range(c['loose']):
            recs.append(('loose', zi, k))
        cells = [tuple(r.choice(alt[g]) for g in m.faces[f]) for f in m.zone_faces(zi)]
        out.append((recs, cells))
    return out


def position(m, rec):
    if isinstance(rec, tuple):
        return [1000.5 + rec[1], -7.0, float(rec[2])]
    return m.points[rec]


def write(m, recs, name):
    out = ['TITLE="t"', 'VARIABLES="X", "Y", "Z", "T"']
    n = 0
    for zi, (rs, cells) in enumerate(recs):
        out += ['ZONE T="{0}"'.format(m.znames[zi]), 'NODES={0}'.format(len(rs)),
                'ELEMENTS={0}'.format(len(cells)), 'DATAPACKING=BLOCK', 'ZONETYPE=FETRIANGLE',
                'VARLOCATION=([4-4]=CELLCENTERED)']
        ps = [position(m, x) for x in rs]
        for i in range(3):
            out.append(' '.join(repr(p[i]) for p in ps))
        out.append(' '.join(repr(float(n + k)) for k in range(len(cells))))
        n += len(cells)
        out += [' '.join(str(i + 1) for i in t) for t in cells]
    with open(name, 'w') as f:
        f.write('\n'.join(out) + '\n')


def model(m, recs, merge):
    """Expected node positions, cells (node numbers), zones."""
    nodes, cells, zones, where = [], [], [], {}
    for zi, (rs, cs) in enumerate(recs):
        loc = []
        for x in rs:
            p = position(m, x)
            k = tuple(round(t, 10) for t in p)
            if merge and k in where:
                loc.append(where[k])
            else:
                where.setdefault(k, len(nodes))
                loc.append(len(nodes))
                nodes.append(tuple(p))
        for t in cs:
            cells.append(tuple(loc[i] for i in t))
            zones.append(zi)
    return nodes, cells, zones


def incidence(c, ctx):
    import gsu
    m = M.build(c)
    recs = records(m, c)
    merge = bool(c['merge'])
    nodes, cells, zones = model(m, recs, merge)
    edges = {}
    for k, t in enumerate(cells):
        if len(set(t)) < 3:
            ctx.skip('degenerate')
            return
        for a, b in ((0, 1), (1, 2), (0, 2)):
            edges.setdefault(frozenset((t[a], t[b])), []).append(k)
    bad = max(len(x) for x in edges.values()) > 2
    write(m, recs, 'a.dat')
    g = gsu.Grid()
    if bad:
        ctx.cls('three cells on an edge')
        check(raises(g.load, 'a.dat', is_merge_same_nodes=merge),
              'a file with three cells on one edge was accepted')
        return
    g.load('a.dat', is_merge_same_nodes=merge)
    ctx.cls('merge' if merge else 'no merge')
    ctx.nt(any(len(x) == 2 for x in edges.values()) and (len(m.znames) > 1 or c['dup'] > 0))
    inv.incidence(g)
    check([inv.pos(n) for n in g.Nodes] == nodes, 'nodes differ: {0} expected, {1} found',
          len(nodes), len(g.Nodes))
    for what in ('Nodes', 'Edges', 'Faces'):
        check([x.GloId for x in getattr(g, what)] == list(range(len(getattr(g, what)))),
              'identifiers of {0} are not their positions', what)
    check([tuple(n.GloId for n in f.Nodes) for f in g.Faces] == cells, 'cells differ')
    check([f['T'] for f in g.Faces] == [float(k) for k in range(len(cells))], 'cell data differ')
    check(len(g.Zones) == len(m.znames), 'zones differ')
    zi = {id(z): i for i, z in enumerate(g.Zones)}
    check([zi[id(f.Zone)] for f in g.Faces] == zones, 'zones of cells differ')
    got = {frozenset(n.GloId for n in e.Nodes): sorted(f.GloId for f in e.Faces) for e in g.Edges}
    check(len(got) == len(g.Edges) and got == {k: sorted(v) for k, v in edges.items()},
          '{0} edges expected, {1} found', len(edges), len(g.Edges))
    for f in g.Faces:
        for e in f.Edges:
            others = [k for k in edges[frozenset(n.GloId for n in e.Nodes)] if k != f.GloId]
            nb = f.get_neighbour(e)
            check((nb.GloId if nb is not None else None) == (others[0] if others else None),
                  'neighbour of cell {0} is wrong', f.GloId)


@st.composite
def case(draw):
    c = draw(M.mesh_cases(big=24, hubs=24, variables=[], max_size=5, emptyzones=True, flip=True))
    c['order'] = draw(st.sampled_from(['first', 'sorted', 'random']))
    c['merge'] = draw(st.integers(0, 1))
    c['dup'] = draw(st.sampled_from([0, 0, 1, 2, 5]))
    c['loose'] = draw(st.sampled_from([0, 0, 1, 3]))
    return c


def third(c, ctx):
    """Glue one more cell to an inner edge: the load must fail; to a border edge: it must not."""
    import gsu
    m = M.build(c)
    es = sorted(m.edges().items())
    e, fs = es[c['edge'] % len(es)]
    m.points.append([p + 0.5 * (i + 1) for i, p in enumerate(m.points[e[0]])])
    m.faces.append((e[0], e[1], len(m.points) - 1))
    m.zone.append(c['zone'] % len(m.znames))
    M.write_dat(m, 'a.dat')
    # Without merging only cells of one zone share edges.
    z = m.zone[-1]
    merge = bool(c['merge'])
    n = 1 + sum(1 for f in fs if merge or m.zone[f] == z)
    if not merge:
        n = max(n, len(fs) if len({m.zone[f] for f in fs}) == 1 else 0)
    g = gsu.Grid()
    ctx.cls('expect refusal' if n > 2 else 'expect success')
    ctx.nt(n > 2)
    check(raises(g.load, 'a.dat', is_merge_same_nodes=merge) == (n > 2),
          'edge with {0} cells was {1}', n, 'accepted' if n > 2 else 'refused')
    if n <= 2:
        inv.incidence(g)


@st.composite
def third_case(draw):
    c = draw(M.mesh_cases(variables=[], max_size=4, max_zones=3))
    c['edge'] = draw(st.integers(0, 500))
    c['zone'] = draw(st.integers(0, 5))
    c['merge'] = draw(st.integers(0, 1))
    return c


def parts():
    return [Part('incidence', case(), incidence, 1600,
                 rule='grid compared object by object with a model built from the records'),
            Part('third', third_case(), third, 500, rule='non-trivial when the load must be refused')]
