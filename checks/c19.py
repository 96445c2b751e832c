"""C19: the droplet tool writes a complete checkpoint grid and trajectory file."""
import math
import random

from vf import flight as F
from vf import mesh as M
from vf.core import Part, check
from vf.util import listing, run_script
from checks.c18 import make_air
from hypothesis import strategies as st

ID = 'C19'
RULE = 'Case = stall grid, air file, parameters; non-trivial when a path has a step; hits are counted as classes.'
ASSUMPTIONS = ['Air zone headers give counts as N=..., E=..., outside the title of the zone.']
MADE = ['MImp2', 'T', 'Hw', 'Hi']       # the tool makes them when they are absent
STALL = ['Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ']


def air_text(air, c):
    """Text of an air file: brick zone among others."""
    r = random.Random(c['seed'] + 5)
    out = ['TITLE="air"', 'VARIABLES="X" "Y" "Z" "P" "T" "VX" "VY" "VZ"']

    def other(k):
        n, e = r.randint(1, 5), r.randint(1, 4)
        t = r.choice(['wall{0}'] * 3 + ['wall {0}', 'N = 5 walls', 'inlet, E=2', 'far field {0}', 'FEBRICK wall', 'TITLE=5',
                                      'VARIABLES=old'])
        ls = ['ZONE ZONETYPE={0}, T="{1}" N = {2} E = {3}'.format(r.choice(['FEQUADRILATERAL', 'FETRIANGLE']),
                                                                   t.format(k), n, e)]
        ls += [' '.join('{0:.6f}'.format(r.uniform(-9, 9)) for _ in range(8)) for _ in range(n)]
        ls += [' '.join(str(r.randint(1, n)) for _ in range(4)) for _ in range(e)]
        return ls
    zones = [other(k) for k in range(c['others'])]
    cuts = [0, len(air)] if not c['two'] or len(air) < 2 else [0, len(air) // 2, len(air)]
    for a, b in zip(cuts, cuts[1:]):
        e = r.randint(0, 3)
        t = r.choice(['air box'] * 3 + ['air', 'N = 1 air', 'air of E=3', 'TITLE=air', 'VARIABLES='])
        ls = ['ZONE ZONETYPE=FEBRICK, T="{2}" N = {0} E = {1}'.format(b - a, e, t)]
        for p, v in air[a:b]:
            ls.append(' '.join(M.spell(x, r) for x in p + [r.uniform(0, 9), r.uniform(200, 300)] + v))
        ls += ['1 1 1 1 1 1 1 1' for _ in range(e)]
        at = r.randint(0, len(zones))
        # Keep the order of air zones.
        first_air = [i for i, z in enumerate(zones) if 'FEBRICK' in z[0]]
        if first_air:
            at = r.randint(first_air[-1] + 1, len(zones))
        zones.insert(at, ls)
    return '\n'.join(out + [x for z in zones for x in z]) + '\n'


def parse_paths(path):
    with open(path) as f:
        ls = f.read().split('\n')
    check(ls[-1] == '', 'trajectory file ends without a newline')
    ls = [x for x in ls[:-1] if not x.startswith('#')]
    check(ls[0].startswith('TITLE="') and ls[1] == 'VARIABLES="X", "Y", "Z"', 'trajectory file head {0}', ls[:2])
    k, out = 2, []
    while k < len(ls):
        check(ls[k].startswith('ZONE T="') and ls[k].endswith('"'), 'trajectory zone head {0}', ls[k][:60])
        name = ls[k][8:-1]
        n, e = int(ls[k + 1].split('=')[1]), int(ls[k + 2].split('=')[1])
        xyz = [[float(x) for x in ls[k + 6 + i].split()] for i in range(3)]
        check(all(len(x) == n for x in xyz) and e == n - 1, 'counts of zone {0}', name)
        links = ls[k + 9:k + 9 + e]
        check([x.split() for x in links] == [[str(i + 1), str(i + 2), str(i + 2)] for i in range(e)],
              'segments of zone {0}: {1}', name, links[:4])
        out.append((name, [tuple(t) for t in zip(*xyz)]))
        k += 9 + e
    return out


def scene(c):
    """Model grid inside the air box, with stall fields."""
    r = random.Random(c['seed'])
    m = M.build(c['mesh'])
    L = c['air']['size']
    lo = [min(p[i] for p in m.points) for i in range(3)]
    ext = max(max(p[i] for p in m.points) - lo[i] for i in range(3)) or 1.0
    k = c['fill'] * L / ext
    m.points = [[0.1 * L + (p[i] - lo[i]) * k for i in range(3)] for p in m.points]
    n = len(m.faces)
    names = [v for v in m.vars if v not in STALL + ['MImp2', 'T', 'Hw', 'Hi']]
    names += [v for i, v in enumerate(MADE) if not c['less'] >> i & 1] + STALL
    # Only the five of them are removed.
    names += [v for v in ['StallT', 'OldStall', 'StallDT'] if r.random() < 0.2]
    r.shuffle(names)
    m.vars = names
    m.data = {v: x for v, x in m.data.items() if v in names}
    thr = c['thr']
    for v in names:
        m.data.setdefault(v, [r.uniform(-5, 5) for _ in range(n)])
    m.data['Stall'] = [r.choice([0.0, thr, thr * r.uniform(1.001, 9), thr * r.uniform(0, 0.999),
                                 thr * r.uniform(1.001, 9)]) for _ in range(n)]
    m.data['StallD'] = [c['dia'] * r.uniform(0.5, 2) if s > thr else 0.0 for s in m.data['Stall']]
    u = max(c['air']['speed'], 1.0)
    for v in STALL[2:]:
        m.data[v] = [r.uniform(-u, u) for _ in range(n)]
    if c['still']:
        for f in range(n):
            for i, v in enumerate(STALL[2:]):
                m.data[v][f] = 0.0
    return m


def tool(c, ctx):
    import drops
    air = make_air(c['air'])
    if c['cli'] and c['omit'] >> 3 & 1:
        c = dict(c, thr=1e-6)
    m = scene(c)
    L = c['air']['size']
    M.write_dat(m, 'stall.dat')
    with open('air.dat', 'w') as f:
        f.write(air_text(air, c))
    before = listing('.')
    d = c['dist'] * L
    dt = c['dt'] * L / max(1.0, c['air']['speed'])
    ms = c['max']
    if c['cli']:
        # Options left out take their documented defaults.
        d, dt, ms = [v if c['omit'] >> i & 1 == 0 else w
                     for i, (v, w) in enumerate([(d, 1e-4), (dt, 1e-5), (ms, 200)])]
        argv = ['stall.dat', 'air.dat', 'out.dat']
        for i, (names, v) in enumerate([(('-d', '--distance'), repr(d)), (('-t', '--time_delta'), repr(dt)),
                                        (('-m', '--max_fly_steps'), ms),
                                        (('-s', '--stall_threshold'), repr(c['thr']))]):
            if c['omit'] >> i & 1 == 0:
                argv += [names[c['omit'] >> 4 & 1], v]
        run_script('drops.py', argv)
    else:
        drops.drops('stall.dat', 'air.dat', 'out.dat', d, dt, c['thr'], ms)
    after = listing('.')
    check(all(after.get(k) == v for k, v in before.items()), 'an input file changed')
    check(sorted(set(after) - set(before)) == ['out.dat', 'out.dat.tr.dat'], 'files written: {0}',
          sorted(set(after) - set(before)))
    order = m.file_order()
    tris = [[list(p) for p in m.corners(f)] for f in order]
    box = F.box_of(air)
    # Paths.
    wet = [k for k, f in enumerate(order) if m.data['Stall'][f] > c['thr']]
    paths = parse_paths('out.dat.tr.dat')
    check(sorted(n for n, _ in paths) == sorted('Trajectory-{0}'.format(k) for k in wet),
          'paths {0} for wet cells {1}', [n for n, _ in paths], wet)
    by = dict(paths)
    ok = [[m.data['MImp2'][f] if 'MImp2' in m.vars else 0.0] for f in order]
    hits = steps = 0
    for k in wet:
        f = order[k]
        pts = by['Trajectory-{0}'.format(k)]
        w = M.tri_cross(*tris[k])
        lw = math.sqrt(sum(x * x for x in w))
        start = [sum(p[i] for p in tris[k]) / 3 + d * w[i] / lw for i in range(3)]
        check(math.dist(start, pts[0]) <= 1e-9 * L, 'path of cell {0} starts at {1} instead of {2}', k, pts[0], start)
        v0 = [m.data[v][f] for v in STALL[2:]]
        res = F.check_steps(pts, v0, air, m.data['StallD'][f], dt)
        steps += len(pts) > 1
        # How did it end?
        for i in range(len(pts) - 1):
            check(F.inside(box, pts[i]), 'the flight went on from {0} outside of the box', pts[i])
        for i in range(len(pts) - 2):
            check('hit' not in F.hits(tris, pts[i], pts[i + 1]), 'path of cell {0} goes through a surface', k)
        check(len(pts) <= ms + 1, 'path of {0} points, the limit is {1}', len(pts), ms)
        s = F.hits(tris, pts[-2], pts[-1]) if len(pts) > 1 else []
        cand = [j for j, x in enumerate(s) if x != 'miss']
        crossed = 'hit' in s
        if not cand and len(pts) <= ms and F.inside(box, pts[-1]):
            still = res.states is None or res.checked < len(pts) - 1 or \
                any(math.sqrt(sum(x * x for x in v)) * dt <= 2e-15 + 4e-16 * L + 20 * e * dt for v, e in res.states)
            check(still, 'path of cell {0} ends at {1} without a reason', k, pts[-1])
        for j in cand:
            val = m.data['Stall'][f] / M.tri_area(*tris[j])
            if crossed and len(cand) == 1:
                ok[j] = [val]
            else:
                ok[j] = ok[j] + [val]
        hits += crossed
    ctx.cls('{0} hits'.format(min(hits, 5)), 'cli' if c['cli'] else 'function')
    ctx.nt(steps > 0)
    # Grid.
    g = M.parse_dat('out.dat')
    check(g.title == m.title, 'title {0}', g.title)
    want_vars = [v for v in m.vars if v not in STALL]
    made = [v for v in MADE if v not in m.vars and (v != 'MImp2' or v in g.vars)]
    k = len(want_vars)
    check(g.vars[:k] == want_vars and sorted(g.vars[k:]) == sorted(made), 'variables {0} instead of {1} and {2}',
          g.vars, want_vars, made)
    check('MImp2' in g.vars or all(0.0 in x for x in ok), 'no secondary impingement is stored')
    want_vars += made
    ctx.cls('fields made' if made else 'all fields')
    check([z.name for z in g.zones] == m.znames, 'zones {0} instead of {1}', [z.name for z in g.zones], m.znames)
    cells = g.cells()
    check(len(cells) == len(order), '{0} cells instead of {1}', len(cells), len(order))
    for k, (zi, cs, data) in enumerate(cells):
        f = order[k]
        check(zi == m.zone[f] and M.cyclic(cs) == M.cyclic(m.corners(f)), 'cell {0} changed', k)
        for v in want_vars:
            x = data[v]
            if v in ('T', 'Hw', 'Hi'):
                check(x == 0, '{0} of cell {1} is {2}', v, k, x)
            elif v == 'MImp2':
                check(any(math.isclose(x, y, rel_tol=1e-9) for y in ok[k]),
                      'secondary impingement of cell {0} is {1}, expected one of {2}', k, x, ok[k])
            else:
                check(x == m.data[v][f], '{0} of cell {1} is {2} instead of {3}', v, k, x, m.data[v][f])


def missing(c, ctx):
    from vf.util import raises
    import drops
    cc = c['base']
    m = scene(cc)
    M.write_dat(m, 'stall.dat')
    with open('air.dat', 'w') as f:
        f.write(air_text(make_air(cc['air']), cc))
    names = ['stall.dat', 'air.dat']
    names[c['which']] = 'none.dat'
    before = listing('.')
    check(raises(drops.drops, names[0], names[1], 'out.dat', 1e-4, 1e-5, 1e-6, 5), 'a missing file is accepted')
    check(listing('.') == before, 'a refused run wrote files')
    ctx.nt()


mesh = M.mesh_cases(max_size=3, max_comps=2, data=('plain',), scales=(1.0,))
case = st.fixed_dictionaries({
    'air': st.fixed_dictionaries({'seed': st.integers(0, 10 ** 6), 'n': st.sampled_from([2, 3, 4]),
                                  'grid': st.sampled_from([1, 1, 0]), 'size': st.sampled_from([0.1, 1.0, 10.0]),
                                  'speed': st.sampled_from([80.0, 300.0, 1.0]),
                                  'flow': st.sampled_from(['uniform', 'vortex', 'random', 'still'])}),
    'mesh': mesh, 'seed': st.integers(0, 10 ** 6), 'fill': st.sampled_from([0.8, 0.5, 0.3]),
    'thr': st.sampled_from([1e-6, 1e-3, 0.5]), 'dia': st.sampled_from([1e-3, 1e-2, 1e-4, 1e-5, 2e-6]), 'still': st.sampled_from([0, 0, 0, 1]),
    'dist': st.sampled_from([1e-3, 1e-2, 1e-4]), 'dt': st.sampled_from([0.03, 0.1, 0.01]),
    'max': st.sampled_from([40, 15, 3, 1]), 'cli': st.sampled_from([0, 0, 1]),
    'less': st.sampled_from([0, 0, 1, 2, 12, 14, 15]), 'omit': st.integers(0, 31), 'others': st.integers(0, 3), 'two': st.integers(0, 1)})


def parts():
    return [Part('tool', case, tool, 400, rule='paths, hits and the output grid against the model'),
            Part('missing', st.fixed_dictionaries({'base': case, 'which': st.integers(0, 1)}), missing, 30)]
