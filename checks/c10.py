"""C10: MPI borders of neighbouring .cry files match pairwise."""
from vf.core import Part, check
from checks.c09 import case, files

ID = 'C10'
RULE = 'Case = generated mesh and decomposition; non-trivial with at least one border of 2+ edges.'


def borders(c, ctx):
    m, g, fs = files(c, ctx)
    # Geometry of local edges, and the cells around every geometric edge, from the files alone.
    owners = {}
    geo = []
    for i, q in enumerate(fs):
        ks = [frozenset((q.nodes[a], q.nodes[b])) for a, b in q.edge_nodes]
        geo.append(ks)
        for t in q.face_nodes:
            for a, b in ((0, 1), (1, 2), (0, 2)):
                owners.setdefault(frozenset((q.nodes[t[a]], q.nodes[t[b]])), []).append(i)
    lists = {}
    for i, q in enumerate(fs):
        check(len(q.borders) == q.nborders, 'zone {0} declares {1} borders, lists {2}', i, q.nborders,
              len(q.borders))
        js = [j for j, _ in q.borders]
        check(len(set(js)) == len(js) and i not in js and all(0 <= j < len(fs) for j in js),
              'zone {0} has borders with {1}', i, js)
        check(sum(len(x) for _, x in q.borders) == q.ncross,
              'zone {0} declares {1} cross edges, its borders list {2}', i, q.ncross,
              sum(len(x) for _, x in q.borders))
        for j, es in q.borders:
            check(es and all(0 <= e < q.ne for e in es), 'border {0}-{1}: {2}', i, j, es)
            lists[i, j] = [geo[i][e] for e in es]
    for (i, j), es in lists.items():
        check((j, i) in lists, 'zone {0} borders on {1}, not the other way', i, j)
        check(len(lists[j, i]) == len(es), 'border {0}-{1} has {2} edges, back {3}', i, j, len(es),
              len(lists[j, i]))
        check(lists[j, i] == es, 'border {0}-{1}: the two lists name different edges', i, j)
        if c['merge']:
            for e in es:
                check(sorted(owners[e]) == sorted((i, j)),
                      'border {0}-{1} lists an edge between cells of zones {2}', i, j, owners[e])
    if c['merge']:
        for i in range(len(fs)):
            want = sorted(sorted(e) for e, zs in owners.items() if len(zs) == 2 and i in zs
                          and zs[0] != zs[1])
            got = sorted(sorted(e) for (a, _), es in lists.items() if a == i for e in es)
            check(want == got, 'zone {0} has {1} cross edges, its borders list {2}', i, len(want),
                  len(got))
    ctx.cls('borders {0}'.format(min(len(lists) // 2, 10)))
    ctx.nt(any(len(x) > 1 for x in lists.values()))


def parts():
    return [Part('borders', case(merges=(1, 1, 1, 1, 1, 0)), borders, 1500,
                 rule='k-th edges of both lists compared by geometry')]
