"""C01: grid files survive load and store."""
import random

from vf import mesh as M
from vf.core import Part, check
from vf.util import load
from hypothesis import strategies as st

ID = 'C01'
RULE = ('Case = generated mesh (bases, components, holes, zones, variables, awkward floats) written '
        'by an independent writer; non-trivial when it has at least 2 zones or 4 cells and at least '
        'one variable.')
NAMES = ['', 'grid', 'wing 1, left', 'Крыло', 'a=b', 'T="x"', 'x = y, z', ' lead', 'trail ', '1e5',
         'a.b-c (2)', 'q' * 60, 'No #1', '# 5', 'a#']
VARNAMES = M.DATA_VARS + ['a=b', 'p/q', 'Ж', 'x1', '%', 'Long-Variable_Name.1']


def tweak_names(m, c):
    if c.get('eqnames'):
        m.znames = [n + ['=1', ' = 2', '=', '"=x', ' #3'][k % 5] for k, n in enumerate(m.znames)]


def check_file(m, path):
    g = M.parse_dat(path)
    check(g.title == m.title, 'title {0!r} became {1!r}', m.title, g.title)
    check([z.name for z in g.zones] == m.znames, 'zones {0} became {1}', m.znames,
          [z.name for z in g.zones])
    check(g.vars == m.vars, 'variables {0} became {1}', m.vars, g.vars)
    want, got = M.expected_cells(m), g.cells()
    check(len(want) == len(got), '{0} cells became {1}', len(want), len(got))
    for k, (w, h) in enumerate(zip(want, got)):
        check(w[0] == h[0], 'cell {0} moved from zone {1} to {2}', k, w[0], h[0])
        check(M.cyclic(w[1]) == M.cyclic(h[1]), 'corners of cell {0}: {1} became {2}', k, w[1], h[1])
        for v in m.vars:
            check(w[2][v] == h[2][v], 'cell {0}, {1}: {2!r} became {3!r}', k, v, w[2][v], h[2][v])
    for zi, z in enumerate(g.zones):
        used = {m.faces[f][i] for f in m.zone_faces(zi) for i in range(3)}
        check(len(z.nodes) == len(used), 'zone {0}: {1} nodes stored for {2} distinct corners', zi,
              len(z.nodes), len(used))


def roundtrip(c, ctx):
    import gsu
    m = M.build(c)
    tweak_names(m, c)
    ctx.cls('zones', len(m.znames))
    ctx.cls('data ' + c['data'])
    ctx.nt((len(m.znames) > 1 or len(m.faces) > 3) and len(m.vars) > 0)
    M.write_dat(m, 'a.dat', order=c['order'], seed=c['seed'], comments=bool(c['comments']),
                sep=c['sep'])
    if c['stale']:
        # Whatever stood at the output path before is replaced as a whole.
        for name in ('b.dat', 'c.dat'):
            with open(name, 'w') as f:
                f.write('ZONE T="old"\n' + '0.123 4 5\n' * 20000)
    g = gsu.Grid()
    g.load('a.dat', is_merge_same_nodes=bool(c['merge']))
    g.store('b.dat')
    check_file(m, 'b.dat')
    h = gsu.Grid()
    h.load('b.dat', is_merge_same_nodes=bool(c['merge']))
    h.store('c.dat')
    check(open('b.dat', 'rb').read() == open('c.dat', 'rb').read(),
          'storing the stored file again changes it')
    h.load('b.dat', is_merge_same_nodes=bool(c['merge']))
    h.store('d.dat')
    check(open('b.dat', 'rb').read() == open('d.dat', 'rb').read(),
          'loading into the same object again changes the result')


@st.composite
def case(draw):
    c = draw(M.mesh_cases(big=40, variables=VARNAMES, titles=NAMES, emptyzones=True, dupnames=True,
                          scales=(1.0, 1e-3, 1e3, 0.37, 1e-5, 1e8)))
    if c['scale'] < 1e-4 or c['scale'] > 1e6:
        c['shift'] = [0.0, 0.0, 0.0]
    c['order'] = draw(st.sampled_from(['first', 'sorted', 'random']))
    c['merge'] = draw(st.integers(0, 1))
    c['comments'] = draw(st.integers(0, 1))
    c['sep'] = draw(st.sampled_from([', ', ', ', ' ', ',  ', ' , ']))
    c['stale'] = draw(st.sampled_from([0, 0, 1]))
    c['eqnames'] = draw(st.sampled_from([0, 0, 1]))
    return c


@st.composite
def history(draw):
    steps = draw(st.lists(st.fixed_dictionaries({
        'op': st.sampled_from(['load', 'load', 'load', 'decompose', 'mark', 'data']),
        'file': st.integers(0, 2), 'merge': st.integers(0, 1), 'n': st.integers(1, 4)}),
        min_size=2, max_size=6))
    return {'files': [draw(M.mesh_cases(max_size=3, max_comps=1)) for _ in range(3)],
            'notitle': draw(st.integers(0, 7)), 'steps': steps}


def histories(c, ctx):
    import gsu
    ms = [M.build(x) for x in c['files']]
    for i, m in enumerate(ms):
        lines = M.dat_lines(m)
        if c['notitle'] >> i & 1:
            m.title = ''
            lines = [s for s in lines if not s.startswith('TITLE=')]
        with open('f%d.dat' % i, 'w') as f:
            f.write('\n'.join(lines) + '\n')
    g = gsu.Grid()
    loads = 0
    loaded = False
    for s in c['steps']:
        if s['op'] == 'load':
            loads += 1
            loaded = True
            name = 'f%d.dat' % s['file']
            g.load(name, is_merge_same_nodes=bool(s['merge']))
            h = gsu.Grid()
            h.load(name, is_merge_same_nodes=bool(s['merge']))
            g.store('g.dat')
            h.store('h.dat')
            check(open('g.dat', 'rb').read() == open('h.dat', 'rb').read(),
                  'a re-used grid object stores something else than a fresh one')
            check_file(ms[s['file']], 'g.dat')
            for what in ('Nodes', 'Edges', 'Faces', 'Zones'):
                check(len(getattr(g, what)) == len(getattr(h, what)),
                      'a re-used grid object has {0} {1}, a fresh one {2}', len(getattr(g, what)),
                      what, len(getattr(h, what)))
            check(g.Name == h.Name, 'titles differ: {0!r}, {1!r}', g.Name, h.Name)
        elif loaded:
            if s['op'] == 'decompose':
                g.decompose_linear(s['n'], new_name='renamed')
            elif s['op'] == 'mark':
                g.mark_all_fixed_nodes()
            elif s['op'] == 'data':
                for f in g.Faces:
                    f['Extra'] = 1.0
    ctx.cls('loads', loads)
    ctx.nt(loads >= 2)


def mixed(c, ctx):
    """Data given to some cells only is stored, the others have zero."""
    m = M.build(c['mesh'])
    g = load(m)
    r = random.Random(c['seed'])
    want = []
    for k, f in enumerate(g.Faces):
        if r.random() < c['drop']:
            f.Data = {}
        for v in c['new']:
            if r.random() < c['part']:
                f[v] = r.choice([r.uniform(-9, 9), 0.1 + r.random(), -0.0, 1e300])
        want.append(dict(f.Data))
    g.store('o.dat')
    check([dict(f.Data) for f in g.Faces] == want, 'storing changed the data of cells')
    p = M.parse_dat('o.dat')
    names = {v for w in want for v in w}
    check(set(p.vars) == names and len(p.vars) == len(names), 'variables {0} instead of {1}', p.vars, sorted(names))
    got = p.cells()
    cells = [f for z in g.Zones for f in z.Faces]
    check(len(got) == len(cells), '{0} cells instead of {1}', len(got), len(cells))
    at = {id(f): k for k, f in enumerate(g.Faces)}
    for f, (_, _, d) in zip(cells, got):
        w = want[at[id(f)]]
        check(all(M.same_float(d[v], w.get(v, 0.0)) for v in names), 'cell {0} holds {1} instead of {2}', at[id(f)],
              d, w)
    ctx.cls('different sets' if len({tuple(sorted(w)) for w in want}) > 1 else 'equal sets')
    ctx.nt(len({tuple(sorted(w)) for w in want}) > 1)


mixed_case = st.fixed_dictionaries({
    'mesh': M.mesh_cases(max_size=3), 'seed': st.integers(0, 2 ** 20), 'drop': st.sampled_from([0, 0, 0.3]),
    'new': st.lists(st.sampled_from(['T', 'Hi', 'New', 'MImp2', 'Q']), max_size=3, unique=True),
    'part': st.sampled_from([0.1, 0.5, 1])})


def parts():
    return [Part('roundtrip', case(), roundtrip, 1200,
                 rule='store(load(file)) equals the file model exactly; second store byte-identical'),
            Part('reuse', history(), histories, 300,
                 rule='non-trivial when at least two loads go into one object'),
            Part('mixed', mixed_case, mixed, 300, rule='cells have different sets of variables')]
