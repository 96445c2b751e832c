"""Generated triangulations: an independent model of a grid, its writer and strict parsers.

A mesh is described by a small JSON-able parameter dict (the generated case); build() expands it
deterministically.  Nothing here imports the code under test.
"""
import math
import random

from . import env  # noqa: F401  (makes hypothesis importable)
from hypothesis import strategies as st

# Values of the kind the solvers write, plus awkward ones.
DATA_VARS = ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2', 'TauX', 'TauY', 'TauZ',
             'RecoveryFactor', 'Stall', 'StallD', 'StallVX', 'StallVY', 'StallVZ', 'Q', 'p_1']


class Mesh:
    """points: [[x,y,z]], faces: [(a,b,c)], zone[f]: zone index, znames, vars, data[var][f]."""

    def __init__(self):
        self.title = ''
        self.points = []
        self.faces = []
        self.zone = []
        self.znames = []
        self.vars = []
        self.data = {}
        # Ways to write numbers of files: plain ones or all kinds of them.
        self.spell = 0

    def copy(self):
        m = Mesh()
        m.spell = self.spell
        m.title = self.title
        m.points = [list(p) for p in self.points]
        m.faces = [tuple(f) for f in self.faces]
        m.zone = list(self.zone)
        m.znames = list(self.znames)
        m.vars = list(self.vars)
        m.data = {k: list(v) for k, v in self.data.items()}
        return m

    def corners(self, f):
        return tuple(tuple(self.points[i]) for i in self.faces[f])

    def zone_faces(self, zi):
        return [f for f in range(len(self.faces)) if self.zone[f] == zi]

    def file_order(self):
        """Cells in the order a reader meets them: zone after zone."""
        return [f for zi in range(len(self.znames)) for f in self.zone_faces(zi)]

    def edges(self):
        """{frozenset(a, b): [faces]}"""
        es = {}
        for f, (a, b, c) in enumerate(self.faces):
            for p, q in ((a, b), (b, c), (c, a)):
                es.setdefault((p, q) if p < q else (q, p), []).append(f)
        return es


# ------------------------------------------------------------------------------------------- bases

def _plate(n, m, hole=False):
    ps = [[float(i), float(j), 0.0] for j in range(m + 1) for i in range(n + 1)]
    fs = []
    for j in range(m):
        for i in range(n):
            a = j * (n + 1) + i
            b, c, d = a + 1, a + n + 2, a + n + 1
            if (i + j) % 2 == 0:
                fs += [(a, b, c), (a, c, d)]
            else:
                fs += [(a, b, d), (b, c, d)]
    return ps, fs


def _tube(n, m):
    n = max(n, 3)
    r = n / (2 * math.pi) + 0.3
    ps = [[r * math.cos(2 * math.pi * i / n), r * math.sin(2 * math.pi * i / n), float(j)]
          for j in range(m + 1) for i in range(n)]
    fs = []
    for j in range(m):
        for i in range(n):
            a, b = j * n + i, j * n + (i + 1) % n
            c, d = b + n, a + n
            fs += [(a, b, c), (a, c, d)]
    return ps, fs


def _torus(n, m):
    n, m = max(n, 3), max(m, 3)
    R, r = 3.0, 1.0
    ps = [[(R + r * math.cos(2 * math.pi * j / m)) * math.cos(2 * math.pi * i / n),
           (R + r * math.cos(2 * math.pi * j / m)) * math.sin(2 * math.pi * i / n),
           r * math.sin(2 * math.pi * j / m)] for j in range(m) for i in range(n)]
    fs = []
    for j in range(m):
        for i in range(n):
            a, b = j * n + i, j * n + (i + 1) % n
            c, d = ((j + 1) % m) * n + (i + 1) % n, ((j + 1) % m) * n + i
            fs += [(a, b, c), (a, c, d)]
    return ps, fs


def _tetra(n, m):
    ps = [[1.0, 1.0, 1.0], [1.0, -1.0, -1.0], [-1.0, 1.0, -1.0], [-1.0, -1.0, 1.0]]
    return ps, [(0, 1, 2), (0, 3, 1), (0, 2, 3), (1, 3, 2)]


def _octa(n, m):
    ps = [[1.0, 0, 0], [-1.0, 0, 0], [0, 1.0, 0], [0, -1.0, 0], [0, 0, 1.0], [0, 0, -1.0]]
    ps = [[float(x) for x in p] for p in ps]
    return ps, [(0, 2, 4), (2, 1, 4), (1, 3, 4), (3, 0, 4), (2, 0, 5), (1, 2, 5), (3, 1, 5), (0, 3, 5)]


def _subdivide(ps, fs, unit=True):
    ps = [list(p) for p in ps]
    mid = {}

    def m(a, b):
        k = (min(a, b), max(a, b))
        if k not in mid:
            q = [(ps[a][i] + ps[b][i]) / 2 for i in range(3)]
            if unit:
                r = math.sqrt(sum(x * x for x in q))
                q = [x / r for x in q]
            mid[k] = len(ps)
            ps.append(q)
        return mid[k]

    out = []
    for a, b, c in fs:
        ab, bc, ca = m(a, b), m(b, c), m(c, a)
        out += [(a, ab, ca), (ab, b, bc), (ca, bc, c), (ab, bc, ca)]
    return ps, out


def _sphere(n, m):
    ps, fs = _octa(0, 0)
    for _ in range(1 if n <= 2 else 2):
        ps, fs = _subdivide(ps, fs)
    return ps, fs


def icosphere(levels):
    t = (1 + math.sqrt(5)) / 2
    ps = [[-1, t, 0], [1, t, 0], [-1, -t, 0], [1, -t, 0], [0, -1, t], [0, 1, t],
          [0, -1, -t], [0, 1, -t], [t, 0, -1], [t, 0, 1], [-t, 0, -1], [-t, 0, 1]]
    r = math.sqrt(1 + t * t)
    ps = [[x / r for x in p] for p in ps]
    fs = [(0, 11, 5), (0, 5, 1), (0, 1, 7), (0, 7, 10), (0, 10, 11), (1, 5, 9), (5, 11, 4),
          (11, 10, 2), (10, 7, 6), (7, 1, 8), (3, 9, 4), (3, 4, 2), (3, 2, 6), (3, 6, 8),
          (3, 8, 9), (4, 9, 5), (2, 4, 11), (6, 2, 10), (8, 6, 7), (9, 8, 1)]
    for _ in range(levels):
        ps, fs = _subdivide(ps, fs)
    return ps, fs


def _fan(n, m):
    n = max(n, 3) + m
    ps = [[0.0, 0.0, 0.5]] + [[math.cos(2 * math.pi * i / n), math.sin(2 * math.pi * i / n), 0.0]
                              for i in range(n)]
    return ps, [(0, 1 + i, 1 + (i + 1) % n) for i in range(n)]


def _strip(n, m):
    k = n + m
    ps = [[0.5 * i, float(i % 2), 0.1 * (i % 3)] for i in range(k + 2)]
    return ps, [(i, i + 1, i + 2) if i % 2 == 0 else (i + 1, i, i + 2) for i in range(k)]


def _bowtie(n, m):
    """Two triangles sharing only a corner."""
    ps = [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [1.0, 1.0, 0.0], [-1.0, 0.0, 0.0], [-1.0, -1.0, 0.5]]
    return ps, [(0, 1, 2), (0, 3, 4)]


BASES = {'plate': _plate, 'tube': _tube, 'torus': _torus, 'tetra': _tetra, 'octa': _octa,
         'sphere': _sphere, 'fan': _fan, 'strip': _strip, 'bowtie': _bowtie}
OPEN = ['plate', 'tube', 'fan', 'strip']


def rotation(seed):
    """Deterministic rotation matrix from an integer; 0 is the identity."""
    if seed == 0:
        return [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]
    r = random.Random(seed)
    while True:
        q = [r.gauss(0, 1) for _ in range(4)]
        n = math.sqrt(sum(x * x for x in q))
        if n > 1e-3:
            break
    w, x, y, z = [c / n for c in q]
    return [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]


def apply(mat, p):
    return [sum(mat[i][k] * p[k] for k in range(3)) for i in range(3)]


# ------------------------------------------------------------------------------------------ values

def awkward(r):
    """A finite float of any kind."""
    k = r.randrange(8)
    if k == 0:
        return 0.0
    if k == 1:
        return float(r.randint(-1000, 1000))
    if k == 2:
        return r.uniform(-1, 1) * 10.0 ** r.randint(-300, 300)
    if k == 3:
        return r.choice([1e-308, -0.0, 5e-324, -1.7976931348623157e308, 0.1, 1 / 3, -2 ** 53 - 0.0, 1e22])
    if k == 4:
        return r.gauss(0, 1)
    return r.uniform(0, 300)


ZNAMES = ['zone', 'POS1', 'POS 2', 'a.b', 'wing (left)', 'B_01', 'x' * 40, 'Зона', 'z:1', "q'q", '0', 'h', 'mono',
          'a;b', '[k]', 'wing #2', 'TITLE=1', 'VARIABLES=2', '# 3', 'NODES=4']


def build(c):
    """Expand a mesh case (dict made by mesh_cases) into a Mesh."""
    r = random.Random(c.get('seed', 0))
    m = Mesh()
    off = 0.0
    for comp in c['comps']:
        ps, fs = BASES[comp[0]](comp[1], comp[2])
        base = len(m.points)
        xmin, xmax = min(p[0] for p in ps), max(p[0] for p in ps)
        for p in ps:
            m.points.append([p[0] - xmin + off, p[1], p[2]])
        off += xmax - xmin + 1.5
        m.faces += [tuple(base + i for i in f) for f in fs]
    # Jitter keeps the triangulation valid (cells stay non-degenerate).
    amp = c.get('jitter', 0) * 0.01
    if amp:
        for p in m.points:
            for i in range(3):
                p[i] += r.uniform(-amp, amp)
    # Holes.
    drop = c.get('drop', 0)
    if drop:
        keep = [f for f in m.faces if r.random() * 100 >= drop]
        m.faces = keep or m.faces[:1]
    # Forget unused points.
    used = sorted({i for f in m.faces for i in f})
    new = {o: k for k, o in enumerate(used)}
    m.points = [m.points[o] for o in used]
    m.faces = [tuple(new[i] for i in f) for f in m.faces]
    # Sharp rims.
    if c.get('squash'):
        for p in m.points:
            p[1 if len(m.points) % 2 else 2] *= c['squash']
    # Place in space.
    mat = rotation(c.get('rot', 0))
    s = c.get('scale', 1.0)
    sh = c.get('shift', [0.0, 0.0, 0.0])
    m.points = [[s * x + d for x, d in zip(apply(mat, p), sh)] for p in m.points]
    # Numbering.
    if c.get('shuffle', 0):
        perm = list(range(len(m.points)))
        r.shuffle(perm)
        inv = [0] * len(perm)
        for k, o in enumerate(perm):
            inv[o] = k
        m.points = [m.points[o] for o in perm]
        m.faces = [tuple(inv[i] for i in f) for f in m.faces]
        r.shuffle(m.faces)
        m.faces = [f[k:] + f[:k] for f in m.faces for k in [r.randrange(3)]]
    if c.get('flip', 0):
        m.faces = [f if r.random() < 0.5 else (f[0], f[2], f[1]) for f in m.faces]
    # Zones.
    nz = c.get('nz', 1)
    mode = c.get('zmode', 'blocks')
    n = len(m.faces)
    if mode == 'random':
        m.zone = [r.randrange(nz) for _ in range(n)]
    elif mode == 'coord':
        order = sorted(range(n), key=lambda f: sum(m.points[i][0] for i in m.faces[f]))
        m.zone = [0] * n
        for k, f in enumerate(order):
            m.zone[f] = k * nz // n
    else:
        m.zone = [k * nz // n for k in range(n)]
    names = list(ZNAMES)
    r.shuffle(names)
    if c.get('dupnames', 0):
        names = [names[0]] * nz
    m.znames = [names[i % len(names)] + ('' if i < len(names) else str(i)) for i in range(nz)]
    if not c.get('emptyzones', 0):
        # Drop zones that received no cell.
        used = [z for z in range(nz) if z in set(m.zone)]
        ren = {z: k for k, z in enumerate(used)}
        m.zone = [ren[z] for z in m.zone]
        m.znames = [m.znames[z] for z in used]
    # Data.
    m.vars = list(c.get('vars', []))
    style = c.get('data', 'plain')
    for v in m.vars:
        if style == 'awkward':
            m.data[v] = [awkward(r) for _ in range(n)]
        elif style == 'zero':
            m.data[v] = [0.0] * n
        else:
            m.data[v] = [r.uniform(-10, 10) for _ in range(n)]
    m.title = c.get('title', '')
    m.spell = c.get('spell', 0)
    return m


@st.composite
def mesh_cases(draw, bases=None, max_size=5, max_comps=2, max_zones=4, variables=None, min_vars=0,
               data=('plain', 'awkward', 'zero'), scales=(1.0, 1e-3, 1e3, 0.37), jitter=True,
               drop=True, flip=False, titles=None, emptyzones=None, dupnames=True, shuffle=True,
               place=True, big=0, hubs=0, thousand=True):
    bases = bases or list(BASES)
    large = big and draw(st.integers(0, 9)) == 7
    comps = draw(st.lists(st.tuples(st.sampled_from(bases), st.integers(1, max_size),
                                    st.integers(1, max_size)).map(list),
                          min_size=1, max_size=max_comps))
    c = {'comps': comps, 'seed': draw(st.integers(0, 2 ** 20))}
    c['nz'] = draw(st.integers(1, max_zones))
    if large:
        # Sizes and zone counts of more than one, two and three digits.
        c['comps'] = [[draw(st.sampled_from(['plate', 'tube', 'torus', 'fan'])), draw(st.integers(5, 24)),
                       draw(st.integers(5, 14))]]
        if thousand and draw(st.integers(0, 11)) == 5:
            # More than a thousand cells.
            c['comps'] = [[draw(st.sampled_from(['plate', 'tube', 'torus'])), draw(st.integers(26, 40)),
                           draw(st.integers(20, 28))]]
        c['nz'] = draw(st.integers(1, big))
    if hubs:
        # Many cells around one node.
        for x in c['comps']:
            if x[0] == 'fan' and x[1] % 2:
                x[1] += draw(st.integers(1, hubs))
    c['zmode'] = draw(st.sampled_from(['blocks', 'random', 'coord']))
    if shuffle:
        c['shuffle'] = draw(st.integers(0, 1))
    if jitter:
        c['jitter'] = draw(st.sampled_from([0, 0, 3, 10]))
    if drop:
        c['drop'] = draw(st.sampled_from([0, 0, 0, 10, 40]))
    if flip:
        c['flip'] = draw(st.integers(0, 1))
    if place:
        c['rot'] = draw(st.sampled_from([0, 0, 1, 2, 3, 4]))
        c['scale'] = draw(st.sampled_from(list(scales)))
        sh = draw(st.sampled_from([0, 0, 1, 2]))
        c['shift'] = [[0.0, 0.0, 0.0], [-7.25, 3.5, 0.125], [-100.1, 250.7, -33.3]][sh]
    if emptyzones or emptyzones is None:
        c['emptyzones'] = draw(st.integers(0, 1) if emptyzones else st.sampled_from([0, 0, 0, 0, 0, 1]))
    if dupnames:
        c['dupnames'] = draw(st.sampled_from([0, 0, 0, 0, 1]))
    pool = variables if variables is not None else DATA_VARS
    c['vars'] = draw(st.lists(st.sampled_from(pool), min_size=min_vars, max_size=len(pool),
                              unique=True)) if pool else []
    c['data'] = draw(st.sampled_from(list(data)))
    c['spell'] = draw(st.sampled_from([0, 0, 0, 1, 2, 3]))
    c['title'] = draw(st.sampled_from(titles)) if titles else draw(
        st.sampled_from(['', 'grid', 'wing 1, left', 'Крыло', 'a.b-c (2)', 'wing #2, left']))
    return c


# ------------------------------------------------------------------------------------------ writer

def fmt(x):
    return repr(float(x))


def spell(x, r):
    """One of the usual ways to write down exactly this number."""
    x = float(x)
    s = repr(x)
    m, _, e = '{0:.16E}'.format(x).partition('E')
    ways = [s, '{0:.17g}'.format(x), '{0:.18e}'.format(x), '{0}E{1}'.format(m, e), '{0:.7E}'.format(x),
            '{0:.6f}'.format(x), '{0}E{1:+04d}'.format(m, int(e)), '{0}e{1}'.format(m, int(e))]
    if s.endswith('.0'):
        ways += [s[:-1], s[:-2], s + '000']
    if s.startswith('0.') or s.startswith('-0.'):
        ways.append(s.replace('0.', '.', 1))
    t = r.choice([w for w in ways if float(w) == x])
    if t[0] != '-' and r.random() < 0.15:
        t = '+' + t
    return t


def local_layout(m, zi, order='first', seed=0):
    """Local node list of one zone: global point indices."""
    fs = m.zone_faces(zi)
    loc = []
    seen = set()
    for f in fs:
        for i in m.faces[f]:
            if i not in seen:
                seen.add(i)
                loc.append(i)
    if order == 'sorted':
        loc.sort()
    elif order == 'random':
        random.Random(seed * 7919 + zi).shuffle(loc)
    return loc


def dat_lines(m, order='first', seed=0, layouts=None, comments=False, sep=', '):
    """Independent writer: list of lines (without newline) of a .dat grid file."""
    r = random.Random(m.spell)
    say = (lambda x: spell(x, r)) if m.spell else fmt
    out = ['# generated', 'TITLE="{0}"'.format(m.title),
           'VARIABLES=' + sep.join('"{0}"'.format(v) for v in ['X', 'Y', 'Z'] + m.vars)]
    for zi, name in enumerate(m.znames):
        loc = layouts[zi] if layouts else local_layout(m, zi, order, seed)
        fs = m.zone_faces(zi)
        pos = {g: k for k, g in enumerate(loc)}
        if comments:
            out.append('# zone {0}'.format(zi))
        out += ['ZONE T="{0}"'.format(name), 'NODES={0}'.format(len(loc)),
                'ELEMENTS={0}'.format(len(fs)), 'DATAPACKING=BLOCK', 'ZONETYPE=FETRIANGLE',
                'VARLOCATION=([4-{0}]=CELLCENTERED)'.format(3 + len(m.vars))]
        for i in range(3):
            out.append(' '.join(say(m.points[g][i]) for g in loc) + ' ')
        for v in m.vars:
            out.append(' '.join(say(m.data[v][f]) for f in fs) + ' ')
        for f in fs:
            out.append(' '.join(str(pos[g] + 1) for g in m.faces[f]))
    return out


def write_dat(m, path, **kw):
    with open(path, 'w', newline='\n') as f:
        f.write('\n'.join(dat_lines(m, **kw)) + '\n')
    return path


# ------------------------------------------------------------------------------------------ parser

class BadFile(ValueError):
    pass


class DatZone:
    def __init__(self, name):
        self.name = name
        self.nodes = []
        self.data = {}
        self.faces = []


class DatFile:
    def __init__(self):
        self.title = None
        self.vars = []
        self.zones = []

    def cells(self):
        """[(zone index, corners, {var: value})] in file order."""
        out = []
        for zi, z in enumerate(self.zones):
            for k, f in enumerate(z.faces):
                out.append((zi, tuple(tuple(z.nodes[i]) for i in f),
                            {v: z.data[v][k] for v in self.vars}))
        return out


def parse_dat(path):
    """Strict independent parser of a stored grid file."""
    with open(path, 'r') as f:
        text = f.read()
    if not text.endswith('\n'):
        raise BadFile('no final newline')
    lines = text.split('\n')[:-1]
    g = DatFile()
    k = 0

    def nums(s, n, conv):
        xs = s.split()
        if len(xs) != n:
            raise BadFile('expected {0} values, found {1}'.format(n, len(xs)))
        return [conv(x) for x in xs]

    while k < len(lines):
        s = lines[k]
        if s.startswith('#'):
            k += 1
        elif s.startswith('TITLE='):
            if g.title is not None or s[6:7] != '"' or s[-1] != '"':
                raise BadFile('bad title')
            g.title = s[7:-1]
            k += 1
        elif s.startswith('VARIABLES='):
            vs = [x.strip() for x in s[10:].split(',')]
            if any(len(x) < 2 or x[0] != '"' or x[-1] != '"' for x in vs):
                raise BadFile('bad variables')
            vs = [x[1:-1] for x in vs]
            if vs[:3] != ['X', 'Y', 'Z']:
                raise BadFile('bad variables')
            g.vars = vs[3:]
            k += 1
        elif s.startswith('ZONE T="') and s.endswith('"'):
            z = DatZone(s[8:-1])
            head = lines[k + 1:k + 6]
            if len(head) < 5 or not head[0].startswith('NODES=') or not head[1].startswith('ELEMENTS=') \
                    or head[2] != 'DATAPACKING=BLOCK' or head[3] != 'ZONETYPE=FETRIANGLE' \
                    or head[4] != 'VARLOCATION=([4-{0}]=CELLCENTERED)'.format(3 + len(g.vars)):
                raise BadFile('bad zone head ' + repr(head))
            nn, ne = int(head[0][6:]), int(head[1][9:])
            k += 6
            xyz = [nums(lines[k + i], nn, float) for i in range(3)]
            z.nodes = [list(t) for t in zip(*xyz)]
            k += 3
            for v in g.vars:
                z.data[v] = nums(lines[k], ne, float)
                k += 1
            for _ in range(ne):
                t = nums(lines[k], 3, int)
                if not all(1 <= i <= nn for i in t):
                    raise BadFile('corner out of range')
                z.faces.append(tuple(i - 1 for i in t))
                k += 1
            g.zones.append(z)
        else:
            raise BadFile('unexpected line ' + repr(s[:60]))
    return g


def same_float(a, b):
    return a == b and math.copysign(1, a) == math.copysign(1, b)


def cyclic(t):
    """Canonical rotation of a corner triple (keeps orientation)."""
    k = min(range(3), key=lambda i: t[i:] + t[:i])
    return t[k:] + t[:k]


def expected_cells(m):
    """The model's [(zone index, corners, {var: value})] in file order."""
    return [(m.zone[f], m.corners(f), {v: m.data[v][f] for v in m.vars}) for f in m.file_order()]


def boundary(m):
    return {e for e, fs in m.edges().items() if len(fs) == 1}


def tri_area(a, b, c):
    u = [b[i] - a[i] for i in range(3)]
    v = [c[i] - a[i] for i in range(3)]
    w = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    return 0.5 * math.sqrt(sum(x * x for x in w))


def tri_cross(a, b, c):
    u = [b[i] - a[i] for i in range(3)]
    v = [c[i] - a[i] for i in range(3)]
    return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
