"""C06: number and size of zones."""
import random
from collections import Counter

from vf import decomp as D
from vf import mesh as M
from vf.core import Part, check, fail
from vf.util import load
from hypothesis import strategies as st

ID = 'C06'
RULE = 'Case = generated mesh and algorithm parameters; non-trivial when more than one zone results.'


def history(g, c, ctx):
    """Earlier decompositions, with fixed zones, must not have an influence on the promise."""
    for s in c['before']:
        D.apply(g, s, D.fixed_names(g, s['fix']))
        if any(z.IsFixed for z in g.Zones):
            ctx.cls('fixed zones before')


def before():
    return st.one_of(st.just([]), st.lists(D.step(max_n=5, ops=('hier', 'farhat', 'linear')),
                                           min_size=1, max_size=2))


def sizes(c, ctx):
    m = M.build(c['mesh'])
    g = load(m, c['merge'])
    history(g, c, ctx)
    for s in c['steps']:
        n = s['n'] if s['n'] < 10 else max(1, len(g.Faces) + s['n'] - 11)   # around the cell count
        s = dict(s, n=n)
        if c['default'] and s['op'] != 'mono':
            n, s = 32, dict(s, n=None)
        ctx.cls(s['op'], 'n > cells' if n > len(g.Faces) else 'n = cells' if n == len(g.Faces)
                else 'n < cells')
        D.apply(g, s)
        if s['op'] == 'mono':
            check(len(g.Zones) == 1, 'single-zone decomposition made {0} zones', len(g.Zones))
        elif s['op'] == 'random':
            check(len(g.Zones) == n, '{0} random zones asked, {1} made', n, len(g.Zones))
            # Every zone is as likely as any other one (a sound zone fails this once in 10^14 draws).
            mean = len(g.Faces) / n
            if mean >= 40:
                ctx.cls('random zones of many cells')
                for z in g.Zones:
                    check(abs(len(z.Faces) - mean) <= 8 * mean ** 0.5, 'random zone {0!r} has {1} cells of {2} for {3} zones',
                          z.Name, len(z.Faces), len(g.Faces), n)
        else:
            D.sizes(g, n, s['op'])
        if s['op'] == 'linear':
            at = {id(f): k for k, f in enumerate(g.Faces)}
            runs = [at[id(f)] for z in g.Zones for f in z.Faces]
            check(runs == list(range(len(g.Faces))), 'linear zones are not runs of the cell order')
        if s['op'] == 'farhat':
            D.grown(g, g.Zones, g.Faces)
        check(sum(len(z.Faces) for z in g.Zones) == len(g.Faces), 'sizes do not sum to all cells')
        ctx.nt(n > 1 and len(g.Faces) > 1)


@st.composite
def even_case(draw):
    n = draw(st.integers(2, 4))
    return {'mesh': draw(M.mesh_cases(max_size=5, max_comps=1, variables=[])), 'merge': 1, 'before': draw(before()),
            'default': 0, 'cells': [draw(st.integers(10, 12)), draw(st.integers(8, 10))],
            'steps': [{'op': 'random', 'n': n, 'levels': 1, 'fix': 0, 'name': None}]}


def even(c, ctx):
    mesh = dict(c['mesh'], comps=[['plate'] + c['cells']], drop=0)
    sizes(dict(c, mesh=mesh), ctx)


@st.composite
def sizes_case(draw):
    return {'mesh': draw(M.mesh_cases(big=24, thousand=False, max_size=5, variables=[])),
            'merge': draw(st.sampled_from([1, 1, 0])), 'before': draw(before()),
            'default': draw(st.sampled_from([0, 0, 0, 0, 1])),
            'steps': draw(st.lists(D.step(max_n=14, ops=('mono', 'random', 'linear', 'farhat',
                                                         'linear', 'farhat')),
                                   min_size=1, max_size=3))}


def verify(cells, depth, leaves, signs, nb):
    """True when `leaves` (disjoint sets) can come from median cuts of `cells`."""
    if depth == 0 or len(cells) < 2:
        return leaves == [cells]
    best, cuts = None, []
    for s in signs:
        vs = sorted(s[k] for k in cells)
        blade = vs[len(vs) // 2]
        left = frozenset(k for k in cells if s[k] < blade)
        if not left:
            continue
        right = cells - left
        metric = sum(1 for k in left for j in nb[k] if j in right)
        if best is None or metric < best:
            best, cuts = metric, []
        if metric == best:
            cuts.append((left, right))
    if best is None:
        return leaves == [cells]
    for left, right in cuts:
        a = [z for z in leaves if z <= left]
        b = [z for z in leaves if z <= right]
        if len(a) + len(b) == len(leaves) and verify(left, depth - 1, a, signs, nb) \
                and verify(right, depth - 1, b, signs, nb):
            return True
    return False


def fully_cut(cells, depth, signs):
    """True when any median cut of any piece is possible (all signs injective enough)."""
    return all(len({s[k] for k in cells}) == len(cells) for s in signs) and len(cells) >= 2 ** depth


def hierarchical(c, ctx):
    m = M.build(c['mesh'])
    r = random.Random(c['seed'])
    if c['signs'] == 'default':
        # Multiples of three keep the centres exact whatever the order of summation.
        # So do powers of two and whole shifts.
        k = 2.0 ** c['scale']
        m.points = [[k * 3.0 * (round(64 * x) + q) for x, q in zip(p, c['shift'])] for p in m.points]
        ctx.cls('far' if max(map(abs, c['shift'])) > 1000 else 'scaled' if c['scale'] else 'near')
    g = load(m)
    if len(g.Faces) != len(m.faces) or any(len({id(n) for n in f.Nodes}) < 3 for f in g.Faces):
        ctx.skip('degenerate')
        return
    n = len(g.Faces)
    kw = {}
    if c['signs'] == 'default':
        signs = [[sum(nd.P[i] for nd in f.Nodes) / 3.0 for f in g.Faces] for i in range(3)]
    else:
        k = c['nsigns']
        if c['signs'] == 'permutation':
            signs = [r.sample(range(n), n) for _ in range(k)]
        elif c['signs'] == 'constant':
            signs = [[0] * n for _ in range(k)]
        else:
            signs = [[r.randrange(c['range']) for _ in range(n)] for _ in range(k)]
        at = {id(f): j for j, f in enumerate(g.Faces)}
        kw['extract_signs_funs'] = [lambda f, s=s: s[at[id(f)]] for s in signs]
    num = {id(f): j for j, f in enumerate(g.Faces)}
    nb = [[num[id(x)] for e in f.Edges for x in e.Faces if x is not f] for f in g.Faces]
    depth = c['levels'] - 1
    ctx.cls(c['signs'], 'levels {0}'.format(c['levels']))
    history(g, c, ctx)
    for _ in range(c['again'] + 1):
        names = D.fixed_names(g, c['fix'])
        fixed = [(z.Name, frozenset(num[id(f)] for f in z.Faces)) for z in g.Zones if z.Name in names]
        if fixed:
            kw['fixed_zones'] = names
            ctx.cls('fixed zones')
        else:
            kw.pop('fixed_zones', None)
        if c['levels'] == 6:
            g.decompose_hierarchical(**kw)      # the default
        else:
            g.decompose_hierarchical(levels=c['levels'], **kw)
        leaves, kept = [], Counter(fixed)
        for z in g.Zones:
            x = (z.Name, frozenset(num[id(f)] for f in z.Faces))
            if kept[x] > 0:
                kept[x] -= 1
            else:
                leaves.append(x[1])
        cells = frozenset(range(n)).difference(*[x[1] for x in fixed])
        check(all(leaves) or not cells, 'hierarchical decomposition made an empty zone: sizes {0}',
              [len(z) for z in leaves])
        check(sum(map(len, leaves)) == len(cells) and frozenset().union(*leaves) == cells,
              'hierarchical zones are not a partition')
        check(len(leaves) <= 2 ** depth, '{0} zones from {1} levels', len(leaves), c['levels'])
        if fully_cut(cells, depth, signs):
            ctx.cls('every zone can be cut')
            check(len(leaves) == 2 ** depth, '{0} zones from {1} levels of {2} cells', len(leaves),
                  c['levels'], n)
        if not verify(cells, depth, leaves, signs, nb):
            fail('zones of sizes {0} are not the result of best median cuts',
                 [len(z) for z in leaves])
    ctx.nt(len(leaves) > 1)


@st.composite
def hier_case(draw):
    return {'mesh': draw(M.mesh_cases(big=24, thousand=False, max_size=5, variables=[], place=False, jitter=False,
                                      bases=['plate', 'plate', 'strip', 'sphere', 'torus', 'tube',
                                             'tetra', 'fan', 'bowtie'])),
            'signs': draw(st.sampled_from(['default', 'random', 'permutation', 'constant'])),
            'scale': draw(st.sampled_from([0, 0, 0, 10, 30, -3, -8, -12])),
            'shift': draw(st.sampled_from([[0, 0, 0], [0, 0, 0], [0, 1000000, 0], [-300, 7, 2 ** 30],
                                           [2 ** 33, -2 ** 33, 2 ** 33]])),
            'nsigns': draw(st.integers(1, 4)), 'range': draw(st.sampled_from([2, 3, 5, 50])),
            'levels': draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 3, 4])), 'seed': draw(st.integers(0, 2 ** 20)),
            'before': draw(before()),
            'fix': draw(st.sampled_from([0, 0, 0, 1, 2, 5, 10, 63])), 'again': draw(st.sampled_from([0, 0, 1]))}


def parts():
    return [Part('sizes', sizes_case(), sizes, 1800, rule='exact counts, sizes within one'),
            Part('even', even_case(), even, 12, rule='random zones of many cells'),
            Part('hierarchical', hier_case(), hierarchical, 2500,
                 rule='leaves must be reachable by recursive best median cuts (ties: any)')]
