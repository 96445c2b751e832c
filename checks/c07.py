"""C07: fixed zones survive decomposition untouched."""
from collections import Counter

from vf import decomp as D
from vf import mesh as M
from vf.core import Part, check
from vf.util import load, snapshot, zones_by_cells
from hypothesis import strategies as st

ID = 'C07'
RULE = ('Case = generated mesh and a history of decompositions with fixed zones; non-trivial when some '
        'step fixes a non-empty zone and leaves cells to distribute.')


def fixed(c, ctx):
    m = M.build(c['mesh'])
    g = load(m, c['merge'])
    before = snapshot(g)
    for s in c['steps']:
        names = D.fixed_names(g, s['fix']) if s['op'] in ('hier', 'farhat') else []
        old = zones_by_cells(g)
        keep = [z for z in old if z[0] in names]
        rest = {id(f) for f in g.Faces} - set().union(*[z[1] for z in keep])
        D.apply(g, s, names)
        new = zones_by_cells(g)
        ctx.cls(s['op'], 'fixed {0}'.format(min(len(keep), 4)))
        ctx.nt(bool(rest) and any(z[1] for z in keep))
        extra = Counter(new)
        for z in keep:
            check(extra[z] > 0, '{0}: fixed zone {1!r} of {2} cells is gone or changed', s['op'],
                  z[0], len(z[1]))
            extra[z] -= 1
        extra = list(extra.elements())
        check(set().union(*[z[1] for z in extra]) == rest and
              sum(len(z[1]) for z in extra) == len(rest),
              '{0}: new zones hold {1} cells, {2} were to be distributed', s['op'],
              sum(len(z[1]) for z in extra), len(rest))
        if s['op'] == 'farhat':
            ss = [len(z[1]) for z in extra]
            check(len(extra) == s['n'], 'farhat: {0} additional zones asked, {1} made', s['n'],
                  len(extra))
            check(max(ss) - min(ss) <= 1, 'farhat: sizes of additional zones {0}', ss)
            kept, grown = Counter(keep), []
            for z, x in zip(g.Zones, new):
                if kept[x] > 0:
                    kept[x] -= 1
                else:
                    grown.append(z)
            D.grown(g, grown, [f for f in g.Faces if id(f) in rest])
        elif s['op'] == 'hier':
            check(1 <= len(extra) <= 2 ** (s['levels'] - 1),
                  'hierarchical: {0} additional zones from {1} levels', len(extra), s['levels'])
            if rest:
                check(all(z[1] for z in extra), 'hierarchical: an additional zone is empty')
            if len(rest) >= 2 ** (s['levels'] - 1) and generic(g, rest):
                ctx.cls('hierarchical count asserted')
                check(len(extra) == 2 ** (s['levels'] - 1),
                      'hierarchical: {0} additional zones from {1} levels', len(extra), s['levels'])
        check(snapshot(g) == before, '{0} changed something besides zones', s['op'])
        D.partition(g)


def generic(g, rest):
    """All centres differ in every coordinate by a margin, so that every zone can be cut."""
    fs = [f for f in g.Faces if id(f) in rest]
    for i in range(3):
        vs = sorted(sum(n.P[i] for n in f.Nodes) / 3.0 for f in fs)
        span = max(abs(v) for v in vs) or 1.0
        if any(b - a < 1e-9 * span for a, b in zip(vs, vs[1:])):
            return False
    return True


@st.composite
def case(draw):
    return {'mesh': draw(M.mesh_cases(big=24, max_size=5, max_zones=6, emptyzones=True, dupnames=True,
                                      variables=['T'])),
            'merge': draw(st.sampled_from([1, 1, 1, 0])),
            'steps': draw(st.lists(D.step(max_n=6, ops=('hier', 'farhat', 'hier', 'farhat', 'linear',
                                                        'random', 'mono')),
                                   min_size=1, max_size=5))}


def parts():
    return [Part('fixed', case(), fixed, 1500)]
