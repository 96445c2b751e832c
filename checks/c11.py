"""C11: splitting, calculating and merging puts every result on its own cell."""
import os
import random

from vf import cry
from vf import mesh as M
from vf.core import Part, check, close
from vf.util import listing, raises, run_script
from hypothesis import strategies as st

ID = 'C11'
RULE = ('Case = grid file, strategy, results of a model solver for a set of timestamps, foreign files; '
        'non-trivial with at least two timestamps or two zones.')
COLS = 10


def solver_value(ts, gid, v, mode=0):
    r = random.Random('{0}|{1}'.format(ts, gid))
    if mode == 1 and r.random() < 0.5:
        # A dry cell at zero temperature is a result too.
        return 0.0
    if mode == 2:
        return [0.0, -0.0, 1e-300, -5.5, 1e300][random.Random('{0}|{1}|{2}'.format(ts, gid, v)).randrange(5)]
    return random.Random('{0}|{1}|{2}'.format(ts, gid, v)).uniform(-50, 300)


def num(x, style):
    return ['{0:.18e}', '{0!r}', '{0:.17g}'][style].format(x)


def pipeline(c, ctx):
    import merge
    import split
    m = M.build(c['mesh'])
    r = random.Random(c['seed'])
    os.makedirs('in')
    stem = c['stem']
    grid = 'in/' + stem + ('_' + c['ts'] if c['ts'] else '') + '.dat'
    M.write_dat(m, grid)
    split.split(grid, 'cry', None, c['strategy'])
    order = m.file_order()
    zone_cells = {}
    for f in sorted(os.listdir('cry')):
        if f.endswith('.cry'):
            q = cry.parse('cry/' + f)
            zone_cells[q.mpi] = q.gloids
    check(sorted(k for v in zone_cells.values() for k in v) == list(range(len(order))),
          'the files do not hold every cell exactly once')
    # Model solver: per timestamp, files of a subset of zones, in any order of writing.
    os.makedirs('src')
    vs = c['vars']
    written = {}
    todo = []
    for ts in c['stamps']:
        zs = [z for z in zone_cells if r.random() >= c['missing']]
        if not zs:
            zs = [min(zone_cells)]
        for z in zs:
            todo.append((ts, z))
        written[ts] = {k: {v: solver_value(ts, k, v, c['zero']) for v in vs} for z in zs for k in zone_cells[z]}
    r.shuffle(todo)
    for ts, z in todo:
        ks = list(zone_cells[z])
        if c['shuffle']:
            r.shuffle(ks)
        with open('src/{0}_{1:05d}_{2}.txt'.format(stem, z, ts), 'w') as f:
            f.write('VARIABLES="GloId"' + ''.join(', "{0}"'.format(v) for v in vs) + '\n')
            for k in ks:
                f.write(' '.join([str(k)] + [num(written[ts][k][v], c['style']) for v in vs]) + '\n')
    # Foreign files: wrong stem, number, timestamp, extension.
    junk = [stem + 'x_00000_000000000001.txt', 'x' + stem + '_00000_000000000001.txt',
            stem + '_000a0_000000000001.txt', stem + '_00000_00000000000x.txt',
            stem + '_00000_000000000001.log', 'readme.txt', stem + '.dat', stem + '_00000_000000000001.cry',
            stem + '_00000_1.txt', stem + '_000000000001.txt', stem[:-1] + '_00000_000000000001.txt',
            stem.swapcase() + '_00000_000000000001.txt', '0_' + stem + '_00000_000000000001.txt']
    for k, j in enumerate(junk):
        if c['junk'] >> k & 1 and not (j.startswith('_') or j.endswith(stem + '.txt')):
            with open('src/' + j, 'w') as f:
                f.write('VARIABLES="GloId", "Junk"\n0 1e9\n')
    if c['made']:
        os.makedirs('dst')
        if c['made'] == 2:
            # Left behind by an earlier run: longer files of the same names.
            for ts in written:
                with open('dst/{0}_r_{1}.dat'.format(stem, ts), 'w') as f:
                    f.write('0.5 stale line of an earlier run\n' * 9000)
    before = listing()
    if c['cli']:
        run_script('merge.py', [grid, 'src', 'dst'])
    else:
        merge.merge(grid, 'src', 'dst')
    after = listing()
    check(all(after.get(k) == v for k, v in before.items() if not k.startswith('dst/')),
          'merging changed its inputs')
    fresh = sorted(k for k in after if after[k] != before.get(k))
    want = sorted(['dst/{0}_r_{1}.dat'.format(stem, ts) for ts in written] + ['dst/report.txt'])
    check(fresh == want, 'files made: {0}, expected {1}', fresh, want)
    partial = False
    for ts, vals in written.items():
        p = M.parse_dat('dst/{0}_r_{1}.dat'.format(stem, ts))
        check([z.name for z in p.zones] == m.znames, 'zones differ at {0}', ts)
        check(p.title == m.title, 'title differs at {0}', ts)
        got = p.cells()
        check(len(got) == len(order), 'cells differ at {0}', ts)
        for k, (f, (z, t, d)) in enumerate(zip(order, got)):
            check(z == m.zone[f] and M.cyclic(t) == M.cyclic(m.corners(f)), 'cell {0} moved at {1}',
                  k, ts)
            if k in vals:
                exp = vals[k]
            else:
                partial = True
                exp = {v: m.data[v][f] for v in m.vars}
            for v in p.vars:
                check(d[v] == exp.get(v, 0.0), 'cell {0} at {1}: {2} is {3!r} instead of {4!r}', k, ts,
                      v, d[v], exp.get(v, 0.0))
        want = set(vs if vals else ()) | set(m.vars if len(vals) < len(got) else ())
        check(len(set(p.vars)) == len(p.vars) and set(p.vars) == want, 'variables {0} instead of {1} at {2}', p.vars,
              sorted(want), ts)
    ctx.cls('cells without result' if partial else 'all cells have results',
            'stamps {0}'.format(len(written)), 'zones {0}'.format(min(len(zone_cells), 8)))
    ctx.nt(len(written) > 1 or len(zone_cells) > 1)


@st.composite
def case(draw):
    c = {'mesh': draw(M.mesh_cases(big=24, max_size=4, max_zones=4, variables=['T', 'Hw', 'Hi', 'Q'], min_vars=1)),
         'stem': draw(st.sampled_from(['grid', 'a.b', 'w_1', 'x_12345', 'g_00001_2', 'bunny pos'])),
         'ts': draw(st.sampled_from(['', '000000000000', '123456789012'])),
         'strategy': draw(st.sampled_from(['n1', 'n2', 'n3', 'n7', 'h1', 'h2', 'h3', 'n13', 'n70', 'n120'])),
         'stamps': draw(st.lists(st.one_of(
             st.integers(0, 999999999999), st.integers(0, 5)).map('{0:012d}'.format),
             min_size=0, max_size=draw(st.sampled_from([4, 4, 4, 13])), unique=True)),
         'seed': draw(st.integers(0, 2 ** 20)),
         'missing': draw(st.sampled_from([0, 0, 0, 0.5, 0.9])),
         'vars': draw(st.sampled_from([['T', 'Hw', 'Hi'], ['T', 'Hw', 'Hi'], ['Hi'],
                                       ['Hw', 'T', 'New', 'Hi']])),
         'shuffle': draw(st.integers(0, 1)), 'junk': draw(st.integers(0, 2 ** 13 - 1)),
         'zero': draw(st.sampled_from([0, 0, 1, 1, 2])), 'style': draw(st.integers(0, 2)), 'made': draw(st.integers(0, 2)),
         'cli': draw(st.integers(0, 1))}
    return c


def balance(c, ctx):
    import merge
    m = M.build(c['mesh'])
    M.write_dat(m, 'grid.dat')
    os.makedirs('src')
    os.makedirs('out')
    r = random.Random(c['seed'])
    rows, procs = c['rows'], c['procs']
    times = sorted(r.uniform(0, 1e4) for _ in range(rows))
    total = [[0.0] * (COLS - 1) for _ in range(rows)]
    for p in range(procs):
        with open('src/balance_{0:05d}.csv'.format(p), 'w') as f:
            f.write('time;' + ';'.join('c%d' % i for i in range(COLS - 1)) + '\n')
            for i in range(rows):
                vals = [r.choice([0.0, r.uniform(-10, 10), r.uniform(0, 1e6), 1e-12])
                        for _ in range(COLS - 1)]
                for j, v in enumerate(vals):
                    total[i][j] += v
                f.write(';'.join(M.spell(x, r) for x in [times[i]] + vals) + '\n')
    merge.merge('grid.dat', 'src', 'out/dst')
    fs = sorted(listing('.'))
    check('out/grid.csv' in fs if procs else 'out/grid.csv' not in fs, 'files made: {0}', fs)
    ctx.cls('rows {0}'.format(min(rows, 3)), 'processes {0}'.format(procs))
    ctx.nt(procs > 1 and rows > 0)
    if not procs:
        return
    with open('out/grid.csv') as f:
        lines = f.read().split('\n')
    check(lines[0].split(';')[0] == 'time' and len(lines[0].split(';')) == COLS, 'header {0}', lines[0])
    got = [[float(x) for x in s.split(';')] for s in lines[1:] if s]
    check(len(got) == rows, '{0} rows became {1}', rows, len(got))
    for i, row in enumerate(got):
        check(len(row) == COLS, 'row {0} has {1} columns', i, len(row))
        check(close(row[0], times[i], 1e-12), 'time {0} became {1}', times[i], row[0])
        for j in range(COLS - 1):
            check(close(row[j + 1], total[i][j], 1e-9, 1e-8),
                  'row {0}, column {1}: {2} instead of {3}', i, j, row[j + 1], total[i][j])


@st.composite
def balance_case(draw):
    return {'mesh': draw(M.mesh_cases(max_size=2, max_comps=1, variables=['T'], min_vars=1)),
            'rows': draw(st.integers(1, 6)), 'procs': draw(st.integers(0, 5) | st.sampled_from([2, 3, 11, 33])),
            'seed': draw(st.integers(0, 2 ** 20))}


def refusals(c, ctx):
    import merge
    os.makedirs('src')
    check(raises(merge.merge, 'none.dat', 'src', 'dst'), 'a missing grid was accepted')
    check(not os.path.exists('dst'), 'a refused merge made a directory')
    ctx.nt()


def torn(c, ctx):
    """A damaged line of results, or balance tables that do not fit together."""
    import merge
    m = M.build(c['mesh'])
    M.write_dat(m, 'g.dat')
    n = len(m.faces)
    os.makedirs('src')
    r = random.Random(c['seed'])
    vs = ['T', 'Hw', 'Hi'][:c['nv']]
    ks = list(range(n))
    r.shuffle(ks)
    cut = r.randint(0, n)
    rows = [[[str(k)] + [num(r.uniform(-9, 99), c['style']) for _ in vs] for k in x] for x in (ks[:cut], ks[cut:])]
    how = c['how']
    t = r.choice([x for x in rows if x])
    q = t[r.randrange(len(t))]
    if how == 'lost':
        del q[r.randrange(1, len(q)):]
    elif how == 'id only':
        del q[1:]
    elif how == 'one lost':
        del q[r.randrange(len(q))]
    elif how == 'extra':
        q.insert(r.randint(1, len(q)), '1.5')
    elif how == 'negative':
        q[0] = str(-r.randint(1, n))
    elif how == 'outside':
        q[0] = str(n + r.choice([0, 1, 1000]))
    elif how == 'word':
        q[r.randrange(len(q))] = r.choice(['x', '1.5.5', '--1', '1e'])
    elif how == 'joined':
        t.append(['%d' % r.randrange(n)] + [x for _ in range(2) for x in q[1:]])
    for i, t in enumerate(rows):
        with open('src/g_{0:05d}_000000000007.txt'.format(i), 'w') as f:
            f.write('VARIABLES="GloId"' + ''.join(', "{0}"'.format(v) for v in vs) + '\n')
            f.write(''.join(' '.join(x) + '\n' for x in t))
    if how.startswith('table'):
        a = [r.randint(1, 5), COLS]
        b = list(a)
        if how == 'table rows':
            b[0] = r.choice([x for x in range(1, 7) if x != a[0]])
        else:
            b[1] = COLS - r.randint(1, 3)
        for i, (h, w) in enumerate(r.sample([a, a, b], 3)):
            with open('src/balance_{0:05d}.csv'.format(i), 'w') as f:
                f.write(';'.join('c%d' % j for j in range(w)) + '\n')
                for j in range(h):
                    f.write(';'.join([str(1.0 * j)] + [repr(r.uniform(-9, 9)) for _ in range(w - 1)]) + '\n')
    ctx.cls(how)
    ctx.nt(n > 1)
    check(raises(merge.merge, 'g.dat', 'src', 'out/dst'), 'damaged results were merged ({0})', how)
    check(not [x for x in listing('out') if x.endswith('.csv')] if os.path.exists('out') else True,
          'a table was written for damaged results')
    if not how.startswith('table'):
        check(not [x for x in listing('out') if x.endswith('.dat')], 'a grid was written for damaged results')


torn_case = st.fixed_dictionaries({
    'mesh': M.mesh_cases(max_size=3, variables=['T', 'Hw', 'Hi'], min_vars=1, emptyzones=False),
    'nv': st.integers(1, 3), 'style': st.integers(0, 2), 'seed': st.integers(0, 2 ** 20),
    'how': st.sampled_from(['lost', 'id only', 'one lost', 'extra', 'negative', 'outside', 'word', 'joined',
                            'table rows', 'table rows', 'table columns'])})


def own_results(c, ctx):
    """Results stored by the grid itself load back: identifiers and order, values within [x, x+1)."""
    import gsu
    m = M.build(c['mesh'])
    M.write_dat(m, 'a.dat')
    g = gsu.Grid()
    g.load('a.dat')
    g.store_faces_calc_data('r.txt')
    h = gsu.Grid()
    h.load('a.dat')
    h.load_faces_calc_data('r.txt')
    for f, k in zip(g.Faces, h.Faces):
        check(sorted(k.Data) == ['Hi', 'Hw', 'T'], 'variables {0}', sorted(k.Data))
        for v in ('T', 'Hw', 'Hi'):
            check(f[v] <= k[v] <= f[v] + 1.0, 'cell {0}: {1} is {2}, stored from {3}', f.GloId, v, k[v],
                  f[v])
    ctx.nt(len(g.Faces) > 1)


def parts():
    return [Part('pipeline', case(), pipeline, 700, rule='expected value per cell and timestamp'),
            Part('balance', balance_case(), balance, 250, rule='non-trivial with 2+ processes'),
            Part('own_results', st.fixed_dictionaries({'mesh': M.mesh_cases(
                max_size=3, data=('plain', 'zero'), variables=['T', 'Hw', 'Hi', 'Q'])}), own_results, 100),
            Part('torn', torn_case, torn, 250, rule='more than one cell'),
            Part('refusals', st.just({}), refusals, 1)]
