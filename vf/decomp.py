"""Decomposition steps shared by C05-C07: generation, application, partition invariants."""
from . import inv
from .core import check
from hypothesis import strategies as st


@st.composite
def step(draw, max_n=9, max_levels=4, ops=('mono', 'random', 'linear', 'hier', 'farhat')):
    n = st.integers(1, max_n)
    return {'op': draw(st.sampled_from(list(ops))), 'n': draw(st.one_of(n, n, n, n, st.sampled_from([11, 19, 103]))),
            'levels': draw(st.integers(1, max_levels)), 'fix': draw(st.integers(0, 255)),
            'name': draw(st.sampled_from([None, None, 'renamed', '']))}


def fixed_names(g, mask):
    """A subset of the present zone names (by distinct names) plus sometimes an unknown one."""
    names = []
    for z in g.Zones:
        if z.Name not in names:
            names.append(z.Name)
    out = [n for i, n in enumerate(names) if mask >> (i % 6) & 1]
    if mask & 64:
        out.append('no such zone')
    return out


def apply(g, s, fixed=()):
    fixed = list(fixed)
    count = {} if s['n'] is None else {'count': s['n']}
    if s['op'] == 'mono':
        g.decompose_mono(new_name=s['name'])
    elif s['op'] == 'random':
        g.decompose_random(**count, new_name=s['name'])
    elif s['op'] == 'linear':
        g.decompose_linear(**count, new_name=s['name'])
    elif s['op'] == 'hier':
        g.decompose_hierarchical(levels=s['levels'], new_name=s['name'], fixed_zones=fixed)
    else:
        g.decompose_farhat(**count, new_name=s['name'], fz_names=fixed)


def partition(g):
    """Every cell in exactly one zone, zones closed over nodes and edges."""
    inv.incidence(g)
    listed = [id(f) for z in g.Zones for f in z.Faces]
    check(len(listed) == len(set(listed)), 'a cell is listed twice in zones')
    check(set(listed) == {id(f) for f in g.Faces}, 'zones list {0} cells of {1}', len(listed),
          len(g.Faces))
    check(g.faces_count_in_zones() == len(g.Faces), 'cells in zones are miscounted')


def sizes(g, n, what):
    """Zones' sizes as promised by the linear and breadth-first algorithms."""
    ss = [len(z.Faces) for z in g.Zones]
    check(len(ss) == n, '{0}: {1} zones asked, {2} made', what, n, len(ss))
    check(max(ss) - min(ss) <= 1, '{0}: zone sizes {1}', what, ss)


def grown(g, zones, cells):
    """Breadth-first zones (in their order) grow along edges over the given cells.

    Each takes whole pieces of what is left of the surface and a part of at most one more piece; with
    some cell (its seed) as centre, no cell left out of that part is nearer than one taken.
    """
    left = {id(f): f for f in cells}

    def around(f):
        return [x for e in f.Edges for x in e.Faces if x is not f and id(x) in left]

    def distances(f):
        d = {id(f): 0}
        layer = [f]
        while layer:
            nxt = []
            for a in layer:
                for b in around(a):
                    if id(b) not in d:
                        d[id(b)] = d[id(a)] + 1
                        nxt.append(b)
            layer = nxt
        return d

    for k, z in enumerate(zones):
        mine = {id(f) for f in z.Faces}
        partial, seen = [], set()
        for f in z.Faces:
            if id(f) not in seen:
                piece = set(distances(f))
                seen |= piece
                if not piece <= mine:
                    partial.append(piece)
        check(len(partial) <= 1, 'zone {0} takes parts of {1} pieces of the surface', k, len(partial))
        if partial and k < len(zones) - 1:
            part = partial[0] & mine
            for i in part:
                d = distances(left[i])
                if max(d[j] for j in part) <= min(d[j] for j in partial[0] - mine):
                    break
            else:
                check(False, 'zone {0} of {1} cells is not grown from any of its cells', k, len(mine))
        for i in mine:
            del left[i]
