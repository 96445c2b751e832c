"""C04: malformed grid files are refused."""
import random

from vf import mesh as M
from vf.core import Part, check
from vf.util import raises
from hypothesis import strategies as st

ID = 'C04'
RULE = ('Case = generated valid file with one structural damage; non-trivial when the damage lies '
        'inside a zone.')

KINDS = ['delete', 'repeat', 'corner', 'corner_count', 'count_up', 'count_down', 'token', 'short_row',
         'truncate', 'header', 'junk', 'swap', 'cut_comment']


def classify(lines, nvars):
    """[(role, zone index)] of the lines of a valid file."""
    roles, k, z = [], 0, -1
    while k < len(lines):
        s = lines[k]
        if s.startswith('#'):
            roles.append(('comment', z))
        elif s.startswith('TITLE='):
            roles.append(('title', z))
        elif s.startswith('VARIABLES='):
            roles.append(('variables', z))
        elif s.startswith('ZONE T='):
            z += 1
            ne = int(lines[k + 2].split('=')[1])
            block = ['zone', 'nodes', 'elements', 'packing', 'type', 'varloc', 'xyz', 'xyz', 'xyz']
            block += ['data'] * nvars + ['conn'] * ne
            roles += [(b, z) for b in block]
            k += len(block) - 1
        else:
            raise AssertionError(s)
        k += 1
    return roles


def damage(m, lines, kind, seed):
    """Return damaged lines, or None when the damage does not apply.  Second value: description."""
    r = random.Random(seed)
    roles = classify(lines, len(m.vars))
    inzone = [k for k, (w, _) in enumerate(roles) if w not in ('comment', 'title', 'variables')]
    of = {}
    for k, (w, z) in enumerate(roles):
        of.setdefault(w, []).append(k)
    L = list(lines)

    def nn(k):
        z = roles[k][1]
        return int(lines[[i for i in of['nodes'] if roles[i][1] == z][0]].split('=')[1])

    if kind == 'delete':
        k = r.choice(inzone)
        del L[k]
    elif kind == 'repeat':
        k = r.choice(inzone)
        L.insert(k, L[k])
    elif kind == 'corner':
        k = r.choice(of['conn'])
        t = L[k].split()
        bad = r.choice(['0', '-1', str(-nn(k)), str(nn(k) + 1), str(nn(k) + 100), '-100000'])
        t[r.randrange(3)] = bad
        L[k] = ' '.join(t)
    elif kind == 'corner_count':
        k = r.choice(of['conn'])
        t = L[k].split()
        if r.random() < 0.5:
            del t[r.randrange(3)]
        else:
            t.insert(r.randrange(4), r.choice(t))
        L[k] = ' '.join(t)
    elif kind == 'count_up':
        k = r.choice(of['nodes'] + of['elements'])
        a, b = L[k].split('=')
        L[k] = a + '=' + str(int(b) + r.choice([1, 2, 50]))
    elif kind == 'count_down':
        k = r.choice(of['nodes'] + of['elements'])
        a, b = L[k].split('=')
        L[k] = a + '=' + str(int(b) - r.choice([1, 1, int(b) + 1]))
    elif kind == 'token':
        k = r.choice(of['xyz'] + of.get('data', []) + of['conn'] + of['nodes'] + of['elements'])
        if roles[k][0] in ('nodes', 'elements'):
            L[k] = L[k].split('=')[0] + '=' + r.choice(['x', '', '1.5', '1 2'])
        else:
            t = L[k].split()
            j = r.randrange(len(t))
            pool = ['abc', '1.2.3', '--1', '0x10', '1e', '?']
            if roles[k][0] == 'conn':
                pool += ['1.5', '1e0']
            t[j] = r.choice(pool)
            L[k] = ' '.join(t)
    elif kind == 'short_row':
        k = r.choice(of['xyz'] + of.get('data', []))
        t = L[k].split()
        L[k] = ' '.join(t[:r.randrange(len(t))])
    elif kind == 'truncate':
        k = r.choice(inzone)
        if k + 1 < len(roles) and roles[k + 1][0] in ('zone', 'comment') or k + 1 == len(roles):
            if roles[k][0] == 'conn':
                return None, ''
        L = L[:k + 1]
        if r.random() < 0.5 and roles[k][0] != 'conn':
            L[k] = L[k][:r.randrange(len(L[k]))]
    elif kind == 'header':
        k = r.choice(of['nodes'] + of['elements'] + of['packing'] + of['type'] + of['varloc'])
        w = roles[k][0]
        word, _, rest = L[k].partition('=')
        i = r.randrange(len(word))
        other = word[:i] + r.choice('QJ_7x') + word[i + 1:] + '=' + rest
        L[k] = other if r.random() < 0.4 else {'nodes': 'NODE 3', 'elements': 'CELLS=5',
                'packing': r.choice(['DATAPACKING=POINT', 'DATAPACKING=BLOCKS', '']),
                'type': r.choice(['ZONETYPE=FEQUADRILATERAL', 'ZONETYPE=FEBRICK', 'FETRIANGLE']),
                'varloc': r.choice(['VARLOCATION=([4-{0}]=CELLCENTERED)'.format(4 + len(m.vars)),
                                    'VARLOCATION=([4-{0}]=NODAL)'.format(3 + len(m.vars)), ''])}[w]
    elif kind == 'junk':
        k = r.randrange(len(L) + 1)
        L.insert(k, r.choice(['hello', 'zone', '???', 'ZONE', 'TITLE', '*']))
    elif kind == 'swap':
        k = r.choice(of['nodes'] + of['elements'] + of['packing'] + of['type'])
        L[k], L[k + 1] = L[k + 1], L[k]
    elif kind == 'cut_comment':
        # The file is cut inside a zone and the rest is replaced by a comment.
        k = r.choice(inzone)
        if roles[k][0] == 'conn' and (k + 1 == len(roles) or roles[k + 1][0] in ('zone', 'comment')):
            return None, ''
        L = L[:k + 1] + ['# the end']
    return L, kind


def refuse(c, ctx):
    import gsu
    m = M.build(c['mesh'])
    m.znames = ['z{0}'.format(i) for i in range(len(m.znames))]
    lines = M.dat_lines(m)
    bad, what = damage(m, lines, c['kind'], c['seed'])
    if bad is None or bad == lines:
        ctx.skip('not applicable')
        return
    ctx.cls(what)
    ctx.nt(what not in ('junk',))
    with open('bad.dat', 'w') as f:
        f.write('\n'.join(bad) + ('\n' if c['eol'] else ''))
    g = gsu.Grid()
    if c['reuse'] & 1:
        M.write_dat(M.build(c['other']), 'other.dat')
        g.load('other.dat')
    check(raises(g.load, 'bad.dat', is_merge_same_nodes=bool(c['merge'])),
          'damaged file ({0}) was loaded', what)
    # The object is still usable.
    M.write_dat(M.build(c['other']), 'other.dat')
    h = gsu.Grid()
    h.load('other.dat')
    g.load('other.dat')
    g.store('g.dat')
    h.store('h.dat')
    check(open('g.dat', 'rb').read() == open('h.dat', 'rb').read(),
          'after a refused load the object stores something else than a fresh one')
    check((len(g.Nodes), len(g.Edges), len(g.Faces), len(g.Zones)) ==
          (len(h.Nodes), len(h.Edges), len(h.Faces), len(h.Zones)),
          'after a refused load the object holds other content than a fresh one')


@st.composite
def case(draw):
    return {'mesh': draw(M.mesh_cases(max_size=3, max_zones=3, emptyzones=False)),
            'other': draw(M.mesh_cases(max_size=2, max_comps=1)),
            'kind': draw(st.sampled_from(KINDS)), 'seed': draw(st.integers(0, 2 ** 20)),
            'merge': draw(st.integers(0, 1)), 'reuse': draw(st.integers(0, 1)),
            'eol': draw(st.integers(0, 1))}


def comments(c, ctx):
    """Comment lines between records change nothing."""
    import gsu
    m = M.build(c['mesh'])
    lines = M.dat_lines(m)
    roles = classify(lines, len(m.vars))
    r = random.Random(c['seed'])
    out, n = [], 0
    for k, s in enumerate(lines):
        if roles[k][0] in ('comment', 'title', 'variables', 'zone'):
            for _ in range(r.choice([0, 1, 3])):
                out.append('#' + r.choice(['', ' comment', 'ZONE T="fake"', 'TITLE="fake"', '#',
                                           ' VARIABLES="X", "Y"', ' 1 2 3', ' тест']))
                n += 1
        out.append(s)
    for _ in range(r.choice([0, 1, 3])):
        out.append('# tail')
        n += 1
    res = []
    for i, ls in enumerate((lines, out)):
        with open('a%d.dat' % i, 'w') as f:
            f.write('\n'.join(ls) + '\n')
        g = gsu.Grid()
        g.load('a%d.dat' % i)
        g.store('b%d.dat' % i)
        res.append(open('b%d.dat' % i, 'rb').read())
    ctx.nt(n > 0)
    check(res[0] == res[1], 'comment lines changed the loaded grid')


@st.composite
def comments_case(draw):
    return {'mesh': draw(M.mesh_cases(max_size=3)), 'seed': draw(st.integers(0, 2 ** 20))}


def parts():
    return [Part('refuse', case(), refuse, 2000,
                 rule='every damage of these kinds leaves the file short, over-long or out of range'),
            Part('comments', comments_case(), comments, 300, rule='non-trivial with a comment inserted')]
