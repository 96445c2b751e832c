"""C36: the converter's grid model keeps cells and values through import, edits and export."""
import random

from vf import mesh as M
from vf.core import Part, check, quiet
from vf.util import raises
from hypothesis import strategies as st

ID = 'C36'
RULE = ('Case = files and a sequence of operations; non-trivial when some operation after an import changes '
        'the model or exports two or more cells.')
ASSUMPTIONS = ['Zone names hold no double quotes.']
VARS = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ']
KEEP = VARS[3:]
REC = 'RecoveryFactor'
NAMES = ['wall', 'a=b', 'left wing', 'B-1', 'Крыло', 'x, y', '=', "q'q", '7', 'wall',
         'TITLE=1', 'VARIABLES', 'EXPORT_MODE', 'ZONE T=']


class Nd:
    def __init__(self, xyz, data=None, real=None):
        self.xyz, self.data, self.real = list(xyz), dict(data or dict.fromkeys(KEEP + [REC], 0.0)), real


class Fc:
    def __init__(self, nodes, data):
        self.nodes, self.data = list(nodes), data


class Zn:
    def __init__(self, title):
        self.title, self.nodes, self.faces = title, [], []


def values(o):
    return {'HTC': o.HTC, 'Beta': o.Beta, 'TauX': o.Tau.X, 'TauY': o.Tau.Y, 'TauZ': o.Tau.Z,
            REC: o.RecoveryFactor}


def place(n):
    return [n.Point.X, n.Point.Y, n.Point.Z]


def agree(g, model, what, loose=False):
    check([z.Title for z in g.Zones] == [z.title for z in model], '{0}: zones {1}, expected {2}', what,
          [z.Title for z in g.Zones], [z.title for z in model])
    for z, q in zip(g.Zones, model):
        check(len(z.Nodes) == len(q.nodes) and len(z.Faces) == len(q.faces),
              '{0}: zone {1} has {2} nodes and {3} cells, expected {4} and {5}', what, z.Title, len(z.Nodes),
              len(z.Faces), len(q.nodes), len(q.faces))
        for a, b in zip(z.Nodes, q.nodes):
            if b.real is None:
                b.real = a
            check(a is b.real, '{0}: nodes of zone {1} are not those expected', what, z.Title)
            check(place(a) == b.xyz, '{0}: node at {1}, expected {2}', what, place(a), b.xyz)
            check(values(a) == b.data, '{0}: data of a node {1}, expected {2}', what, values(a), b.data)
        for a, b in zip(z.Faces, q.faces):
            check(len(a.Nodes) == 3 and all(x is y.real for x, y in zip(a.Nodes, b.nodes)),
                  '{0}: corners of a cell of zone {1} are not those expected', what, z.Title)
            got = values(a)
            check(all(got[v] == b.data[v] or loose and abs(got[v] - b.data[v]) <= 1e-12 * abs_sum(b, v)
                      for v in got), '{0}: data of a cell {1}, expected {2}', what, got, b.data)
            b.data = got


def abs_sum(f, v):
    return 1e-300 + sum(abs(n.data[v]) for n in f.nodes)


def exported(model, path):
    g = M.parse_dat(path)
    check(g.vars == KEEP + [REC], 'variables {0}', g.vars)
    check([z.name for z in g.zones] == [z.title for z in model], 'zones of the file {0}, expected {1}',
          [z.name for z in g.zones], [z.title for z in model])

    def r(x):
        return float('%f' % x)
    for z, q in zip(g.zones, model):
        check(len(z.nodes) == len(q.nodes) and len(z.faces) == len(q.faces), 'counts of zone {0}', z.name)
        for a, b in zip(z.nodes, q.nodes):
            check(a == [r(x) for x in b.xyz], 'file: node at {0}, expected {1}', a, b.xyz)
        for k, (a, b) in enumerate(zip(z.faces, q.faces)):
            check(all(q.nodes[i] is n for i, n in zip(a, b.nodes)), 'file: corners of cell {0} of zone {1} are '
                  'other nodes', k, z.name)
            for v in g.vars:
                check(z.data[v][k] == r(b.data[v]), 'file: {0} of a cell is {1}, expected {2}', v, z.data[v][k],
                      b.data[v])


def mesh_of(c):
    m = M.build(c['mesh'])
    m.znames = [c['names'][i % len(c['names'])] for i in range(len(m.znames))]
    m.vars = list(VARS)
    r = random.Random(c['mesh']['seed'] + 1)
    for v in VARS:
        m.data[v] = [M.awkward(r) if c['awkward'] else round(r.uniform(-99, 99), 6) for _ in m.faces]
    return m


def write(m, path, c):
    lines = M.dat_lines(m, order=c['order'], seed=3)
    if c['head'] == 'export mode':
        lines[0] = '# EXPORT_MODE=CHECK_POINT'
    elif c['head'] == 'none':
        lines = lines[2:]
    with open(path, 'w', newline='\n') as f:
        f.write('\n'.join(lines) + '\n')


def history(c, ctx):
    import convert.gsu_converter as G
    g, model, done = G.Grid(), [], 0
    for step, op in enumerate(c['ops']):
        kind, a, b, s = op
        what = 'step {0} ({1})'.format(step, kind)
        if kind == 'import':
            k = a % len(c['files'])
            m = mesh_of(c['files'][k])
            if len(model) + len(m.znames) > 12:
                continue
            write(m, 'in.dat', c['files'][k])
            g.Import('in.dat')
            f = M.parse_dat('in.dat')
            for z in f.zones:
                q = Zn(z.name)
                q.nodes = [Nd(p) for p in z.nodes]
                q.faces = [Fc([q.nodes[i] for i in t], dict({v: z.data[v][i] for v in KEEP}, **{REC: 0.0}))
                           for i, t in enumerate(z.faces)]
                model.append(q)
            for z in g.Zones[-len(f.zones):]:
                check([n.Id for n in z.Nodes] == list(range(len(z.Nodes))), '{0}: ids of nodes', what)
            agree(g, model, what)
            ctx.cls('import')
            continue
        if kind == 'nodes':
            if len(model) <= 10:
                load_nodes(g, model, c['quads'], a, b, s, what)
                agree(g, model, what)
                ctx.cls('nodes, reversed' if s % 2 else 'nodes')
                done += 1
            continue
        if not model:
            continue
        zi = a % len(model)
        z, q = g.Zones[zi], model[zi]
        done += 1
        ctx.cls(kind)
        if kind == 'replace' and q.nodes:
            i = b % len(q.nodes)
            j = s % (len(q.nodes) + 1)
            old = q.nodes[i]
            if j == len(q.nodes):
                new = Nd([0.25, -1.5, 3.0], real=G.Node(77, 0.25, -1.5, 3.0))
            else:
                new = q.nodes[j]
            z.ReplaceNode(old.real, new.real)
            q.nodes = [new if n is old else n for n in q.nodes]
            for f in q.faces:
                f.nodes = [new if n is old else n for n in f.nodes]
        elif kind == 'append' and q.nodes:
            # One more node that no cell uses, maybe with a known identifier.
            old = q.nodes[b % len(q.nodes)]
            new = Nd(old.xyz, old.data, old.real.Copy())
            if s % 2:
                z.ReplaceNode(old.real, new.real)
                q.nodes = [new if n is old else n for n in q.nodes]
                for f in q.faces:
                    f.nodes = [new if n is old else n for n in f.nodes]
                old, new = new, old
            z.Nodes.append(new.real)
            q.nodes.append(new)
        elif kind == 'delete':
            if s % 3 == 0 and q.faces:
                k = b % len(q.faces)
                del q.faces[k], z.Faces[k]
            z.DeleteExtraNodes()
            used = {id(n) for f in q.faces for n in f.nodes}
            q.nodes = [n for n in q.nodes if id(n) in used]
        elif kind == 'restore':
            z.RestoreNodesIndices()
            last = {id(n): i for i, n in enumerate(z.Nodes)}
            check(all(n.Id == last[id(n)] for n in z.Nodes), '{0}: an identifier is not the position', what)
        elif kind == 'copy' and q.nodes:
            n = q.nodes[b % len(q.nodes)].real
            d = n.Copy()
            check(d is not n and d.Id == n.Id and place(d) == place(n) and values(d) == values(n),
                  '{0}: the copy differs: {1} {2} {3}, {4} {5} {6}', what, d.Id, place(d), values(d), n.Id,
                  place(n), values(n))
            d.Id, d.HTC, d.Beta, d.RecoveryFactor = -5, 1.5, 2.5, 3.5
            for w in (d.Point, d.Tau):
                w.X, w.Y, w.Z = 1e9, 2e9, 3e9
        elif kind == 'data':
            r = random.Random(s)
            for n in {id(n): n for n in q.nodes}.values():
                n.data = {v: r.uniform(-50, 50) * 10 ** r.randint(-3, 3) for v in n.data}
                o = n.real
                o.HTC, o.Beta, o.RecoveryFactor = n.data['HTC'], n.data['Beta'], n.data[REC]
                o.Tau.X, o.Tau.Y, o.Tau.Z = n.data['TauX'], n.data['TauY'], n.data['TauZ']
            g.ConvertDataFromNodesToFaces()
            for p in model:
                for f in p.faces:
                    f.data = {v: sum(n.data[v] for n in f.nodes) / 3.0 for v in f.data}
            agree(g, model, what, loose=True)
            continue
        elif kind == 'export':
            for p, w in zip(g.Zones, model):
                # Files need positions for identifiers and every node once.
                p.RestoreNodesIndices()
            if any(len({id(n) for n in p.nodes}) != len(p.nodes) or any(
                    all(n is not x for x in p.nodes) for f in p.faces for n in f.nodes) for p in model):
                continue
            g.Export('out.dat')
            exported(model, 'out.dat')
            if all(p.faces for p in model) and not c['files'][0]['awkward']:
                again(model, ctx)
        agree(g, model, what)
        if any(len(p.faces) > 1 for p in model):
            ctx.nt()


def load_nodes(g, model, quads, a, b, s, what):
    """A file with data in nodes and quadrilaterals, some of them degenerate."""
    r = random.Random(1000 * a + b)
    lines, zones = [], []
    if r.random() < 0.5:
        lines.append('TITLE = "nodes"')
    lines.append('VARIABLES = "X", "Y", "Z", "HTC", "Beta", "TauX", "TauY", "TauZ", "RecoveryFactor"')
    for k in range(r.randint(1, 2)):
        q = Zn(r.choice(NAMES + ['N=4', 'T=1']))
        for _ in range(r.randint(3, 9)):
            xyz = [r.uniform(-5, 5) for _ in range(3)]
            txt = [M.spell(x, r) for x in xyz]
            if r.random() < 0.1:
                i = r.randrange(3)
                xyz[i], txt[i] = 0.0, r.choice(['1.5-310', '****', '1,5'])
            n = Nd(xyz, {v: r.uniform(-9, 9) for v in KEEP + [REC]})
            q.nodes.append(n)
            n.txt = txt
        cells = []
        for kind in quads[:r.randint(1, len(quads))]:
            t = r.sample(range(len(q.nodes)), min(4, len(q.nodes)))
            if len(t) < 4 or kind:
                t = t[:3]
                j = (kind - 1) % 4 if kind else 2
                if j == 3:
                    t = [t[0], t[1], t[2], t[0]]
                else:
                    t.insert(j, t[j])
            cells.append(t)
        lines.append('ZONE T="{0}", N={1}, E={2}, ET=QUADRILATERAL, F=FEPOINT'.format(q.title, len(q.nodes),
                                                                                     len(cells)))
        for n in q.nodes:
            lines.append(' '.join(n.txt + [M.spell(n.data[v], r) for v in KEEP + [REC]]))
        lines += [' '.join(str(i + 1) for i in t) for t in cells]
        zones.append((q, cells))
    with open('nodes.dat', 'w') as f:
        f.write('\n'.join(lines) + '\n')
    with quiet():
        g.LoadNodesData('nodes.dat', bool(s % 2))
    check(len(g.Zones) == len(model) + len(zones), '{0}: {1} zones instead of {2}', what, len(g.Zones),
          len(model) + len(zones))
    for z, (q, cells) in zip(g.Zones[len(model):], zones):
        check([n.Id for n in z.Nodes] == list(range(len(q.nodes))), '{0}: ids of nodes', what)
        where = {id(n): i for i, n in enumerate(z.Nodes)}
        got = [[where.get(id(n)) for n in f.Nodes] for f in z.Faces]
        # Cells in order, corners up to a turn, quadrilaterals cut along any diagonal.
        rest = list(got)
        for t in cells:
            u = [x for i, x in enumerate(t) if x != t[i - 1]]
            if s % 2:
                u = u[::-1]
            turns = [u[i:] + u[:i] for i in range(len(u))]
            if len(u) == 3:
                check(rest and rest[0] in turns, '{0}: cell {1} became {2}', what, t, rest[:1])
                rest = rest[1:]
            else:
                pair = [[[x[0], x[1], x[2]], [x[0], x[2], x[3]]] for x in turns]
                same = lambda x, y: any(x == y[i:] + y[:i] for i in range(3))        # noqa: E731
                check(len(rest) > 1 and any(same(rest[0], x) and same(rest[1], y) for w in pair
                                            for x, y in (w, w[::-1])),
                      '{0}: cell {1} became {2}', what, t, rest[:2])
                rest = rest[2:]
        check(not rest, '{0}: {1} more cells', what, len(rest))
        q.faces = [Fc([q.nodes[i] for i in t], dict.fromkeys(KEEP + [REC], 0.0)) for t in got]
        model.append(q)


def again(model, ctx):
    """The main grid reader understands the file."""
    import gsu
    h = gsu.Grid()
    if any(len({tuple(n.xyz) for n in f.nodes}) < 3 for p in model for f in p.faces):
        return
    edges = [frozenset(id(f.nodes[i - k]) for k in (0, 1)) for p in model for f in p.faces for i in range(3)]
    if any(edges.count(e) > 2 for e in edges):
        return
    h.load('out.dat', is_merge_same_nodes=False)
    check([z.Name for z in h.Zones] == [z.title for z in model] and
          [len(z.Faces) for z in h.Zones] == [len(z.faces) for z in model], 'the main reader sees other zones')
    ctx.cls('read by the main reader')


def refuse(c, ctx):
    import convert.gsu_converter as G
    m = mesh_of(c)
    write(m, 'in.dat', c)
    with open('in.dat') as f:
        lines = f.read().split('\n')
    heads = [i for i, s in enumerate(lines) if s.startswith('ZONE T=')]
    h = heads[c['k'] % len(heads)]
    # Nodes, elements, three coordinates, five kept variables.
    row = [h + 6, h + 7, h + 8] + [h + 12 + i for i in range(5)]
    i = row[c['row'] % 8]
    xs = lines[i].split()
    if c['more'] or not xs:
        xs.append('0.5')
    else:
        xs.pop(c['k'] % len(xs))
    lines[i] = ' '.join(xs)
    with open('in.dat', 'w') as f:
        f.write('\n'.join(lines))
    g = G.Grid()
    check(raises(g.Import, 'in.dat'), 'a file with {0} values instead of {1} in a row was accepted', len(xs),
          len(xs) + (-1 if c['more'] else 1))
    ctx.nt()
    ctx.cls('row {0}'.format(c['row'] % 8))


@st.composite
def files(draw):
    return {'mesh': draw(M.mesh_cases(max_size=4, variables=[])),
            'names': draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4)),
            'awkward': draw(st.integers(0, 1)), 'order': draw(st.sampled_from(['first', 'random', 'sorted'])),
            'head': draw(st.sampled_from(['export mode', 'comment', 'none']))}


@st.composite
def case(draw):
    kinds = ['nodes', 'nodes', 'import', 'replace', 'replace', 'append', 'append', 'delete', 'delete', 'restore', 'copy', 'data', 'export', 'export']
    ops = draw(st.lists(st.tuples(st.sampled_from(kinds), st.integers(0, 40), st.integers(0, 400),
                                  st.integers(0, 400)).map(list), min_size=1, max_size=12))
    return {'files': draw(st.lists(files(), min_size=1, max_size=2)), 'ops': draw(st.sampled_from([[['import', 0, 0, 0]], [['nodes', 0, 0, 0]], []])) + ops,
            'quads': draw(st.lists(st.integers(0, 4), min_size=1, max_size=5))}


@st.composite
def case_refuse(draw):
    c = draw(files())
    c.update(k=draw(st.integers(0, 99)), row=draw(st.integers(0, 7)), more=draw(st.integers(0, 1)))
    return c


def parts():
    return [Part('history', case(), history, 900, rule='an operation after an import over two or more cells'),
            Part('refuse', case_refuse(), refuse, 200, rule='always')]
