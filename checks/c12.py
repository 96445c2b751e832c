"""C12: edge statistics and zone adjacency counts are exact."""
import contextlib
import io
import random
import re

from vf import decomp as D
from vf import mesh as M
from vf.core import Part, check, close
from vf.util import load
from hypothesis import strategies as st

ID = 'C12'
RULE = 'Case = generated mesh and decomposition; non-trivial with a cross edge and a border edge.'


def stats(c, ctx):
    m = M.build(c['mesh'])
    g = load(m, c['merge'])
    for s in c['steps']:
        D.apply(g, s, D.fixed_names(g, s['fix']))
    present(g, c['merge'], ctx)


def present(g, merge, ctx=None):
    """Everything asked about edges and zones, against the present cells of the grid."""
    import gsu
    zi = {id(z): i for i, z in enumerate(g.Zones)}
    n = len(g.Zones)
    want = [[0] * (n + 1) for _ in range(n + 1)]
    around = {}
    for f in g.Faces:
        for a, b in ((0, 1), (1, 2), (0, 2)):
            k = frozenset((id(f.Nodes[a]), id(f.Nodes[b])))
            around.setdefault(k, []).append(zi[id(f.Zone)])
    for zs in around.values():
        if len(zs) == 1:
            want[zs[0]][n] += 1
            want[n][zs[0]] += 1
        else:
            a, b = zs
            want[a][b] += 1
            if a != b:
                want[b][a] += 1
    zam = gsu.ZonesAdjacencyMatrix(g.Edges, g.Zones)
    check(zam.M == want, 'matrix {0} instead of {1}', zam.M, want)
    bec = sum(want[i][n] for i in range(n))
    iec = sum(want[i][i] for i in range(n))
    cec = sum(want[i][j] for i in range(n) for j in range(i))
    s = zam.edges_statistics()
    check(tuple(s[:4]) == (len(around), bec, iec, cec), 'statistics {0}, expected {1}', s[:4],
          (len(around), bec, iec, cec))
    check(bec + iec + cec == len(g.Edges), 'edges do not add up')
    for got, x in zip(s[4:], (bec, iec, cec)):
        check(close(got, 100.0 * x / len(around), 1e-9, 1e-9), 'percentages {0}', s[4:])
    check(close(sum(s[4:]), 100.0, 1e-9), 'percentages {0} do not sum to 100', s[4:])
    for i in range(n):
        row = [want[i][j] if j != i else 0 for j in range(n)]
        check(list(zam.zone_cross_edges_array(i))[:n] == row, 'cross edges of zone {0}', i)
        check(zam.zone_cross_edges_count(i) == sum(row), 'cross edge count of zone {0}', i)
        check(zam.zone_cross_borders_count(i) == sum(1 for x in row if x), 'borders of zone {0}', i)
        check(zam.zone_max_cross_border_len(i) == max(row), 'longest border of zone {0}', i)
    longest = max(max(want[i][j] for j in range(n) if j != i) if n > 1 else 0 for i in range(n))
    check(zam.max_cross_border_len() == longest, 'longest border {0}', zam.max_cross_border_len())
    check(zam.M == want, 'asking for statistics changed the matrix')
    # Predicates.
    outer = [0] * n
    for e in g.Edges:
        zs = around[frozenset(id(x) for x in e.Nodes)]
        check(e.is_border() == (len(zs) == 1), 'is_border')
        check(e.is_cross() == (len(zs) == 2 and zs[0] != zs[1]), 'is_cross')
        check(e.is_inner() == (len(zs) == 2 and zs[0] == zs[1]), 'is_inner')
        check(e.is_outer() == (not (len(zs) == 2 and zs[0] == zs[1])), 'is_outer')
        if not e.is_inner():
            for z in set(zs):
                outer[z] += 1
        for i in range(n):
            for j in range(n):
                if n <= 5 or random.random() < 0.1:
                    check(bool(e.is_connect_zones(g.Zones[i], g.Zones[j])) ==
                          (len(zs) == 2 and sorted(zs) == sorted((i, j))), 'is_connect_zones')
        for x in e.Nodes[0].Edges[:3] + random.sample(g.Edges, min(3, len(g.Edges))):
            shared = {id(k) for k in e.Nodes} & {id(k) for k in x.Nodes}
            if merge:
                check(bool(e.is_adjacent_with(x)) == bool(shared), 'is_adjacent_with')
            else:
                check(bool(e.is_adjacent_with(x)) or not shared, 'is_adjacent_with')
    for i, z in enumerate(g.Zones):
        check(z.outer_edges_count() == outer[i], 'outer edges of zone {0}', i)
        check((z.faces_count(), z.nodes_count(), z.edges_count()) ==
              (len(z.Faces), len(z.Nodes), len(z.Edges)), 'counts of zone {0}', i)
        if outer[i]:
            check(close(z.zone_quality_factor(), len(z.Faces) ** 0.5 / outer[i], 1e-12),
                  'quality factor of zone {0}', i)
    check((g.zones_count(), g.nodes_count(), g.edges_count(), g.faces_count()) ==
          (n, len({id(x) for f in g.Faces for x in f.Nodes}), len(around), sum(len(z.Faces) for z in g.Zones)),
          'counts of the grid')
    check(g.faces_count_in_zones() == len(g.Faces), 'cells in zones')
    check(g.faces_count_in_fixed_zones() == sum(len(z.Faces) for z in g.Zones if z.IsFixed), 'cells in fixed zones')
    # Report.
    full = all(outer)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        g.print_info(True, full, True)
    text = out.getvalue()
    nums = [float(x) for x in re.findall(r'[-+0-9.]+', text.split('\n')[1])]
    check(nums == [len(g.Nodes), len(g.Edges), len(g.Faces), n], 'report: {0}', text.split('\n')[1])
    k = re.search(r'(\d+) border \(([\d.]+)%\), (\d+) inner \(([\d.]+)%\), (\d+) cross \(([\d.]+)%\)', text)
    check(k is not None and (int(k[1]), int(k[3]), int(k[5])) == (bec, iec, cec),
          'report of edges: {0}', text[:300])
    for got, x in ((k[2], bec), (k[4], iec), (k[6], cec)):
        check(abs(float(got) - 100.0 * x / len(around)) < 0.00501, 'report percentages')
    rows = [ln.split() for ln in text.split('\n')]
    rows = [[int(x) for x in r] for r in rows if len(r) == n + 1 and all(x.isdigit() for x in r)]
    check(want == rows[-(n + 1):], 'reported matrix {0}, expected {1}', rows, want)
    k = re.search(r'border length : (\d+)', text)
    check(int(k[1]) == longest, 'reported longest border')
    if full:
        if ctx:
            ctx.cls('full report')
        for z, ln in zip(g.Zones, text.split('distribution faces between zones:\n')[1].split('\n')):
            k = re.match(r'    (.*) : (\d+) faces, (\d+) outer edges, QF = ([\d.]+)$', ln)
            check(k is not None and k[1] == z.Name and int(k[2]) == len(z.Faces) and
                  int(k[3]) == outer[zi[id(z)]] and
                  abs(float(k[4]) - len(z.Faces) ** 0.5 / outer[zi[id(z)]]) < 0.000501,
                  'report of zone: {0!r}', ln)
        k = re.search(r'max zone faces (\d+), faces distribution deviation : ([-\d.]+)%', text)
        mx, mean = max(len(z.Faces) for z in g.Zones), len(g.Faces) / n
        check(int(k[1]) == mx and abs(float(k[2]) - 100.0 * (mx - mean) / mean) < 0.00501,
              'report of deviation')
        k = re.search(r'min/max quality factor : ([\d.]+), ([\d.]+)', text)
        qs = [len(z.Faces) ** 0.5 / outer[zi[id(z)]] for z in g.Zones]
        check(abs(float(k[1]) - min(qs)) < 0.000501 and abs(float(k[2]) - max(qs)) < 0.000501,
              'report of quality factors')
    if ctx:
        ctx.nt(cec > 0 and bec > 0)


@st.composite
def case(draw):
    return {'mesh': draw(M.mesh_cases(big=24, max_size=5, max_zones=5, emptyzones=True, dupnames=True,
                                      variables=[])),
            'merge': draw(st.sampled_from([1, 1, 1, 0])),
            'steps': draw(st.lists(D.step(max_n=7), min_size=0, max_size=2))}


def parts():
    return [Part('stats', case(), stats, 1200, rule='matrix, predicates and report recomputed')]
