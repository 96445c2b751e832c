"""C26: conversion from ANSYS files keeps selected zones, values and orientation."""
import os
import random

from vf import mesh as M
from vf.core import Part, check, quiet
from vf.util import listing, raises, run_script
from hypothesis import strategies as st

ID = 'C26'
RULE = ('Case = triple of files over generated quadrilateral zones; non-trivial when the kept zones hold '
        'two or more cells and some zone or variable is dropped.')
ASSUMPTIONS = ['The three files hold the kept zones in the same order with the same nodes.',
               'Exactly one variable of a file matches each requested name.',
               'Nodes differ by at least 1e-3; surface and adiabatic temperatures by at least 0.1 K.']

FENSAP = ['X', 'Y', 'Z', 'Static temperature (K)', 'SF1 (Pa)', 'SF2 (Pa)', 'SF3 (Pa)',
          'Classical heat flux (W/m^2)']
FENSAP_X = ['Density (kg/m^3)', 'Total temperature (K)', 'Gresho heat flux (W/m^2)', 'Y+', 'Mach', 'V1-velocity']
DROP = ['X', 'Y', 'Z', 'Collection efficiency-Droplet']
DROP_X = ['Droplet LWC (kg/m^3)', 'Collection efficiency-Crystal', 'Droplet diameter']
ADIAB = ['X', 'Y', 'Z', 'Static temperature (K)']
ADIAB_X = FENSAP_X + ['SF1 (Pa)']
NAMES = ['wall', 'RUN=5', 'BOT=1 2', 'T=', 'wall_2', 'WALL', 'BC_2001', 'nose-1', 'left wing', '7', 'крыло',
         'TITLE', 'VARIABLES 2', 'ZONE']


class Z:
    pass


def coord(s):
    try:
        return float(s)
    except ValueError:
        return 0.0


def zones(c):
    """Quadrilateral zones side by side in one line, sharing borders or not."""
    r = random.Random(c['seed'])
    out, off = [], 0
    for k, q in enumerate(c['zones']):
        z = Z()
        z.name = q['name']
        n, m = (1, 1) if q.get('lone') else (q['n'], q['m'])
        z.txt = []
        bend = r.uniform(0, 0.5)

        def put(x, y, h):
            p = [c['scale'] * v + s for v, s in zip((x, y, h), c['shift'])]
            z.txt.append([['{0:.9E}'.format(v), M.spell(v, r), '{0:.3f}'.format(v)][c['digits']] for v in p])
            return len(z.txt) - 1
        ids = {(i, j): put(off + i, j + 0.1 * (i % 2), bend * i * (i - n) if q['bent'] else 0.0)
               for j in range(m + 1) for i in range(n + 1)}
        z.quads = [(ids[i, j], ids[i + 1, j], ids[i + 1, j + 1], ids[i, j + 1])
                   for j in range(m) for i in range(n)]
        z.loose = set()
        if q.get('lone'):
            # The whole zone is one triangle.
            z.txt = z.txt[:3]
            d = [(0, 1, 2, 2), (0, 0, 1, 2), (0, 2, 1, 1), (2, 1, 0, 2)][q['lone'] - 1]
            z.quads = [d]
        elif q['cap']:
            # A cap of triangles written as degenerate quadrilaterals.
            for i in range(n):
                a, b = ids[i + 1, m], ids[i, m]
                a, b = b, a
                t = put(off + i + 0.5, m + 0.8, 0.3)
                how = r.randrange(10)
                if how < 8:
                    d = [(a, a, b, t), (a, b, b, t), (a, b, t, t)][how % 3]
                    s = r.randrange(4)
                    d = d[s:] + d[:s]
                else:
                    # Coincident corners are opposite: no definite orientation.
                    d = [(a, b, a, t), (a, b, t, b)][how - 8]
                    z.loose.add(frozenset((a, b, t)))
                z.quads.append(d)
        r.shuffle(z.quads)
        # A coordinate that is no number counts as zero.
        z.bad = None
        if q['bad'] and k == 0:
            i = r.randrange(len(z.txt))
            z.txt[i][2] = r.choice(['1.234-310', '********', '-2.5-120'])
            z.bad = i
        z.xyz = [[float('%f' % coord(s)) for s in p] for p in z.txt]
        nn = len(z.txt)

        def vals(lo, hi):
            return [[lambda v: M.spell(v, r), '{0:.6E}'.format][r.randrange(2)](r.uniform(lo, hi)) for _ in range(nn)]
        z.f = {'Static temperature (K)': vals(250, 260)}
        z.a = {'Static temperature (K)': vals(261, 270) if q['warm'] else vals(200, 249)}
        z.f['Classical heat flux (W/m^2)'] = vals(-2000, 2000)
        for v in ('SF1 (Pa)', 'SF2 (Pa)', 'SF3 (Pa)'):
            z.f[v] = vals(-50, 50)
        z.d = {'Collection efficiency-Droplet': vals(0, 1)}
        for v in FENSAP_X + DROP_X + ['SF1 (Pa)']:
            for d in (z.f, z.d, z.a):
                if v not in d:
                    d[v] = vals(-9, 9)
        out.append(z)
        off += n if q['near'] else n + 2
    return out


def write(path, zs, names, which, c, extra, seed):
    r = random.Random(seed)
    with open(path, 'w', encoding='utf-8') as f:
        if c['title']:
            f.write('TITLE = "solution"\n')
        eq, comma = c['head']
        f.write('VARIABLES{0}{1}\n'.format(eq, comma.join('"{0}"'.format(v) for v in names)))

        def foreign(k):
            # A zone nobody asks for: bricks or something.
            nn, ne = r.randint(1, 4), r.randint(1, 3)
            more = r.choice(['', ', AUXDATA Part="{0}"'.format(r.choice(zs).name)])
            f.write('ZONE T="foreign_{0}", N={1}, E={2}, ET=BRICK, F=FEPOINT{3}\n'.format(k, nn, ne, more))
            for _ in range(nn):
                f.write(' '.join('7.5' for _ in names) + '\n')
            for _ in range(ne):
                f.write('1 1 1 1 1 1 1 1\n')
        for k, z in enumerate(zs):
            if extra and r.random() < 0.4:
                foreign(k)
            f.write('ZONE T="{0}", N={1}, E={2}, ET=QUADRILATERAL, F=FEPOINT\n'.format(
                z.name, len(z.txt), len(z.quads)))
            d = getattr(z, which)
            for i, p in enumerate(z.txt):
                f.write(' '.join(p['XYZ'.index(v)] if v in ('X', 'Y', 'Z') else d[v][i] for v in names) + '\n')
            for q in z.quads:
                f.write(' '.join(str(i + 1) for i in q) + '\n')
        if extra and r.random() < 0.4:
            foreign(99)


def names_of(base, more, n, r):
    v = base + r.sample(more, min(n, len(more)))
    r.shuffle(v)
    return v


def layout(c, d):
    r = random.Random(c['seed'] + 3)
    zs = zones(c)
    os.makedirs(d, exist_ok=True)
    base = d + '/' + c['base']
    write(base + '.fensap.dat', zs, names_of(FENSAP, FENSAP_X, c['more'], r), 'f', c, c['extra'], 1)
    write(base + '.drop3d.dat', zs, names_of(DROP, DROP_X, c['more'], r), 'd', c, c['extra'], 2)
    write(base + '.adiabatic.dat', zs, names_of(ADIAB, ADIAB_X, c['more'], r), 'a', c, c['extra'], 3)
    for s in ('fensap', 'drop3d', 'adiabatic'):
        for o in ('other', 'x' + c['base'], c['base'] + '2'):
            with open('{0}/{1}.{2}.dat'.format(d, o, s), 'w') as f:
                f.write('foreign file\n')
    return zs


def argv(c, d, zs):
    want = [z.name for k, z in enumerate(zs) if c['keep'] >> k & 1] or [zs[0].name]
    ask = list(want)
    random.Random(c['seed'] + 4).shuffle(ask)
    if c['absent']:
        ask.append('absent')
    a = [(d + '/' if d != '.' else '') + c['base'], ','.join(ask), '-t', c['ta'], '-v', c['va'], '-cp', c['cp']]
    if c['normals']:
        a += ['-n', c['normals']]
    return want, a


def convert(c, ctx):
    d = c['dir']
    zs = layout(c, d)
    want, a = argv(c, d, zs)
    old = listing('.')
    with quiet():
        run_script('convert/ansys_to_crystal.py', a)
    new = listing('.')
    for f in old:
        check(new.get(f) == old[f], 'input {0} was modified', f)
    g = M.parse_dat('{0}/{1}.dat'.format(d, c['base']))
    check(g.vars == ['HTC', 'Beta', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor'], 'variables {0}', g.vars)
    check([z.name for z in g.zones] == want, 'zones {0}, expected {1}', [z.name for z in g.zones], want)
    for z in zs:
        if z.name in want:
            judge(c, z, [q for q in g.zones if q.name == z.name][0])
    ctx.nt(sum(len(z.quads) for z in zs if z.name in want) > 1 and (len(want) < len(zs) or c['more']))
    ctx.cls('zones {0}/{1}'.format(len(want), len(zs)), c['normals'] or 'default')
    if any(z.loose for z in zs):
        ctx.cls('opposite corners coincide')
    if any(z.bad is not None for z in zs):
        ctx.cls('unreadable coordinate')
    if any(len(set(q)) == 3 for z in zs for q in z.quads):
        ctx.cls('degenerate')


def node_values(c, z, i):
    ts, flux = float(z.f['Static temperature (K)'][i]), float(z.f['Classical heat flux (W/m^2)'][i])
    ta = float(z.a['Static temperature (K)'][i])
    return [-flux / (ts - ta), float(z.d['Collection efficiency-Droplet'][i]),
            float(z.f['SF1 (Pa)'][i]), float(z.f['SF2 (Pa)'][i]), float(z.f['SF3 (Pa)'][i]),
            (ta - c['ta']) * 2 * c['cp'] / c['va'] ** 2]


def judge(c, z, got):
    reverse = c['normals'] != 'origin'
    tris = {}
    for k, f in enumerate(got.faces):
        tris.setdefault(M.cyclic(tuple(tuple(got.nodes[i]) for i in f)), []).append(k)
    cover = set()

    def key(t):
        return M.cyclic(tuple(tuple(z.xyz[i]) for i in t))
    for q in z.quads:
        if reverse:
            q = tuple(reversed(q))
        u = [x for i, x in enumerate(q) if x not in q[:i]]
        if len(u) == 4:
            ways = [[(u[0], u[1], u[2]), (u[0], u[2], u[3])], [(u[0], u[1], u[3]), (u[1], u[2], u[3])]]
        elif frozenset(u) in z.loose:
            ways = [[(u[0], u[1], u[2])], [(u[0], u[2], u[1])]]
        else:
            ways = [[tuple(u)]]
        found = [w for w in ways if all(key(t) in tris for t in w)]
        check(found, 'quadrilateral {0} of zone {1} is not covered by triangles oriented as asked', q, z.name)
        for t in found[0]:
            k = tris[key(t)][0]
            check(len(tris[key(t)]) == 1, 'triangle of zone {0} repeated', z.name)
            cover.add(k)
            vs = [node_values(c, z, i) for i in t]
            for j, v in enumerate(['HTC', 'Beta', 'TauX', 'TauY', 'TauZ', 'RecoveryFactor']):
                x = sum(w[j] for w in vs) / 3
                y = got.data[v][k]
                check(abs(x - y) <= 5.1e-7 + 1e-9 * max(abs(w[j]) for w in vs),
                      '{0} of cell {1} of zone {2}: {3}, expected {4}', v, t, z.name, y, x)
    check(len(cover) == len(got.faces), 'zone {0} has {1} extra triangles', z.name,
          len(got.faces) - len(cover))


def refuse(c, ctx):
    d = c['dir']
    zs = layout(c, d)
    _, a = argv(c, d, zs)
    how = c['how']
    if how in ('fensap', 'drop3d', 'adiabatic'):
        os.remove('{0}/{1}.{2}.dat'.format(d, c['base'], how))
    elif how == 'normals':
        a += ['-n', 'upwards']
    elif how == 'zones':
        a[1] = 'absent'
    elif how == 'temperature':
        del a[2:4]
    elif how in ('cut', 'lost'):
        # A file ends inside a zone that is kept, or one of the lines of this zone is missing.
        r = random.Random(c['seed'] + 9)
        n = '{0}/{1}.{2}.dat'.format(d, c['base'], r.choice(['fensap', 'drop3d', 'adiabatic']))
        with open(n, encoding='utf-8') as f:
            s = f.read().split('\n')[:-1]
        z = zs[-1] if how == 'cut' else r.choice(zs)
        k = max(i for i, x in enumerate(s) if 'T="{0}"'.format(z.name) in x)
        a[1] = ','.join([z.name] + [x.name for x in zs if x is not z and r.random() < 0.5])
        i = r.randrange(len(z.txt) + len(z.quads))
        if how == 'cut':
            s = s[:k + 1 + i]
        else:
            del s[k + 1 + i]
        with open(n, 'w', encoding='utf-8') as f:
            f.write('\n'.join(s) + '\n')
    with quiet():
        bad = raises(run_script, 'convert/ansys_to_crystal.py', a)
    check(bad, 'accepted: {0}', how)
    ctx.nt()
    ctx.cls(how)


@st.composite
def case(draw):
    n = draw(st.integers(1, 4))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=n, max_size=n, unique=True))
    return {'zones': [{'name': x, 'n': draw(st.integers(1, 4)), 'm': draw(st.integers(1, 3)),
                       'bent': draw(st.integers(0, 1)), 'cap': draw(st.integers(0, 1)),
                       'near': draw(st.integers(0, 1)), 'warm': draw(st.integers(0, 1)),
                       'bad': draw(st.sampled_from([0, 0, 0, 1])),
                       'lone': draw(st.sampled_from([0] * 12 + [1, 2, 3, 4]))} for x in names],
            'keep': draw(st.integers(1, 2 ** n - 1)), 'seed': draw(st.integers(0, 9999)),
            'scale': draw(st.sampled_from([1.0, 0.01, 25.0])),
            'shift': draw(st.sampled_from([[0.0, 0.0, 0.0], [-3.25, 0.1, 7.7]])),
            'digits': draw(st.integers(0, 2)), 'title': draw(st.integers(0, 1)),
            'head': draw(st.sampled_from([['=', ','], [' = ', ', '], ['=', ', ']])),
            'more': draw(st.integers(0, 5)), 'extra': draw(st.integers(0, 1)),
            'base': draw(st.sampled_from(['wing', 'case.1', 'a_b-2'])),
            'dir': draw(st.sampled_from(['.', 'in', 'in/deep.er'])), 'absent': draw(st.sampled_from([0, 0, 1])),
            'normals': draw(st.sampled_from(['', 'origin', 'reversed'])),
            'ta': draw(st.sampled_from([265.0, 245.15, 300.0])), 'va': draw(st.sampled_from([50.0, 129.5, 1.5])),
            'cp': draw(st.sampled_from([1004.5, 717.0]))}


@st.composite
def case_refuse(draw):
    c = draw(case())
    c['how'] = draw(st.sampled_from(['fensap', 'drop3d', 'adiabatic', 'normals', 'zones', 'temperature', 'cut', 'cut', 'lost', 'lost']))
    return c


def parts():
    return [Part('convert', case(), convert, 600, rule='something kept, something dropped'),
            Part('refuse', case_refuse(), refuse, 160, rule='always')]
