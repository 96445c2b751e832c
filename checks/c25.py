"""C25: conversion from Lazurit blocks keeps geometry and cell data."""
import math
import os
import random

from vf import mesh as M
from vf.core import Part, check, quiet
from vf.util import listing, raises, run_script
from hypothesis import strategies as st

ID = 'C25'
RULE = 'Case = set of structured blocks; non-trivial when a block has at least 2 x 2 quadrilaterals.'
ASSUMPTIONS = ['Coordinates are multiples of 1e-6, so nodes coincide exactly or differ visibly.']
VARS = ['Tw', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ']


class Block:
    pass


def blocks(c):
    """Blocks side by side; neighbours may share a border."""
    r = random.Random(c['seed'])
    out, off, start = [], 0.0, None
    for b in c['blocks']:
        q = Block()
        q.I, q.J = b['I'], b['J']
        q.name = b['name']
        q.kind = b['kind']
        q.xyz = {}
        for j in range(q.J):
            for i in range(q.I):
                if q.kind == 'ring' and q.J >= 4:
                    # Closed in j direction.
                    t = 2 * math.pi * (j % (q.J - 1)) / (q.J - 1)
                    p = (off + 2 + (1 + 0.2 * i) * math.cos(t), (1 + 0.2 * i) * math.sin(t), 0.1 * i)
                else:
                    p = (off + i * 0.5, j * 0.7 + 0.1 * math.sin(i), 0.2 * math.sin(i + 2 * j))
                q.xyz[i, j] = [round(c['scale'] * x, 6) for x in p]
        if b['share'] and start is not None and q.J == start.J and q.kind == start.kind == 'sheet':
            for j in range(q.J):
                q.xyz[0, j] = list(start.xyz[start.I - 1, j])
        off = max(p[0] for p in q.xyz.values()) / c['scale'] + (0.5 if c['seed'] % 2 else 0.9)
        q.data = {}
        for v in VARS:
            for j in range(q.J - 1):
                for i in range(q.I - 1):
                    x = r.uniform(-9, 9) * 10 ** r.randint(-6, 6) if r.random() < 0.9 else 0.0
                    q.data[v, i, j] = float('{0:.7E}'.format(x)) if c['digits'] else x
        out.append(q)
        start = q
    return out


def wrap(xs, r, mode):
    """Numbers as lines of any layout."""
    lines, row = [], []
    for x in xs:
        row.append(x)
        if len(row) >= (10 if mode == 'ten' else 1 if mode == 'one' else r.randint(1, 17) if mode == 'any'
                        else 10 ** 9):
            lines.append(row)
            row = []
    if row:
        lines.append(row)
    return ''.join(('  ' if r.random() < 0.7 else '') + (' ' * r.randint(1, 3)).join(x) +
                   ('  \n' if r.random() < 0.1 else '\n') for x in lines)


def num(x, r):
    s = '{0:.7E}'.format(x)
    if float(s) == x and r.random() < 0.7:
        return s
    return M.spell(x, r)


def write(bs, d, c):
    r = random.Random(c['seed'] + 5)
    os.mkdir(d)
    for q in bs:
        ij = [(i, j) for j in range(q.J) for i in range(q.I)]
        head = 'VARIABLES = {0}\nZONE T="{1}"\nI={2:6d} J={3:6d} K={4:6d}\n'
        zone = '{0}_Block_WALL_4_Isotermal_wall'.format(q.name)
        strand = ' STRANDID=      200004 SOLUTIONTIME=  15000.00000000\n'
        with open('{0}/TEC_WALL_Grid_{1}.TEC'.format(d, q.name), 'w') as f:
            f.write('FILETYPE = GRID\n' + head.format('X Y Z', zone, q.I, q.J, 1))
            f.write('ZONETYPE = Ordered, DATAPACKING = BLOCK\n' + strand)
            xs = [[num(q.xyz[p][k], r) for p in ij] for k in range(3)]
            f.write(layout(xs, r, c['wrap']))
        with open('{0}/TEC_WALL_Solution_{1}.TEC'.format(d, q.name), 'w') as f:
            f.write('FILETYPE = SOLUTION\n' + head.format(' '.join(VARS), zone, q.I, q.J, 1))
            f.write('ZONETYPE = Ordered, DATAPACKING = BLOCK, VARLOCATION=([1-8]=CELLCENTERED)\n' + strand)
            xs = [[num(q.data[v, i, j], r) for j in range(q.J - 1) for i in range(q.I - 1)] for v in VARS]
            f.write(layout(xs, r, c['wrap']))


def layout(xs, r, mode):
    if mode == 'stream':
        # One stream of numbers: a variable may start in the middle of a line.
        return wrap([x for row in xs for x in row], r, 'any')
    return ''.join(wrap(row, r, mode) for row in xs)


def convert(c, ctx):
    bs = blocks(c)
    write(bs, 'd', c)
    if c['litter']:
        with open('d/readme.txt', 'w') as f:
            f.write('not a block\n')
    old = listing('.')
    with quiet():
        run_script('convert/lazurit_to_crystal.py', ['d', 'o.dat'])
    new = listing('.')
    check(set(new) - set(old) == {'o.dat'} and all(new[f] == old[f] for f in old), 'files: {0}', sorted(new))
    g = M.parse_dat('o.dat')
    check(g.vars == ['T', 'Hw', 'Hi', 'HTC', 'Beta', 'TauX', 'TauY', 'TauZ'], 'variables {0}', g.vars)
    want = sorted(q.name[q.name.rfind('B'):] for q in bs)
    check(sorted(z.name for z in g.zones) == want, 'zones {0}, blocks {1}', [z.name for z in g.zones], want)
    for q in bs:
        z = [z for z in g.zones if z.name == q.name[q.name.rfind('B'):]][0]
        judge(q, z)
    ctx.nt(any(q.I > 2 and q.J > 2 for q in bs))
    ctx.cls(c['wrap'], 'blocks {0}'.format(len(bs)))
    for q in bs:
        ctx.cls(q.kind)


def judge(q, z):
    key = {}
    for p in q.xyz.values():
        key[tuple(round(x, 6) for x in p)] = 1
    check(len(z.nodes) == len(key), 'block {0} has {1} distinct nodes, the zone {2}', q.name, len(key),
          len(z.nodes))
    check(all(tuple(round(x, 6) for x in p) in key and all(abs(x - round(x, 6)) < 1e-12 * max(1, abs(x))
                                                           for x in p)
              for p in z.nodes), 'nodes of block {0} changed', q.name)
    tris = {}
    for k, f in enumerate(z.faces):
        tris.setdefault(M.cyclic(tuple(tuple(round(x, 6) for x in z.nodes[i]) for i in f)), []).append(k)
    check(len(z.faces) == 2 * (q.I - 1) * (q.J - 1), 'block {0} of {1} quadrilaterals has {2} triangles',
          q.name, (q.I - 1) * (q.J - 1), len(z.faces))
    used = set()
    for j in range(q.J - 1):
        for i in range(q.I - 1):
            # Going round: 00 -> 01 -> 11 -> 10.
            ring = [tuple(q.xyz[p]) for p in ((i, j), (i, j + 1), (i + 1, j + 1), (i + 1, j))]
            halves = [[(ring[0], ring[1], ring[2]), (ring[0], ring[2], ring[3])],
                      [(ring[0], ring[1], ring[3]), (ring[1], ring[2], ring[3])]]
            found = None
            for h in halves:
                if all(M.cyclic(t) in tris for t in h):
                    found = h
            check(found, 'quadrilateral {0},{1} of block {2} is not covered by two triangles oriented alike',
                  i, j, q.name)
            for t in found:
                ks = tris[M.cyclic(t)]
                check(len(ks) == 1, 'triangle repeated')
                used.add(ks[0])
                for v in VARS:
                    x = q.data[v, i, j]
                    x = -x if v.startswith('Tau') else x
                    y = z.data['T' if v == 'Tw' else v][ks[0]]
                    check(x == y, 'quadrilateral {0},{1} of block {2}: {3} is {4}, expected {5}', i, j,
                          q.name, v, y, x)
    check(len(used) == len(z.faces), 'extra triangles in block {0}', q.name)


def refuse(c, ctx):
    if c['how'] in ('other block', 'one missing of each'):
        for b in c['blocks']:
            b['I'], b['J'] = c['blocks'][0]['I'], c['blocks'][0]['J']
    bs = blocks(c)
    write(bs, 'd', c)
    how, q = c['how'], bs[c['k'] % len(bs)]
    gname, sname = ('d/TEC_WALL_{0}_{1}.TEC'.format(t, q.name) for t in ('Grid', 'Solution'))
    argv = ['d', 'o.dat']
    if how == 'no directory':
        argv = ['x', 'o.dat']
    elif how == 'no solution':
        os.remove(sname)
    elif how == 'no grid':
        os.remove(gname)
    elif how == 'other block':
        os.rename(sname, sname.replace(q.name, q.name[:-1] + 'x'))
    elif how == 'two grids':
        os.rename(sname, 'd/TEC_WALL_Grid_T-1_B-77.TEC')
    elif how == 'two solutions':
        os.rename(gname, 'd/TEC_WALL_Solution_T-1_B-77.TEC')
    elif how == 'foreign':
        os.rename(gname, 'd/TEC_SYMM_Grid_{0}.TEC'.format(q.name))
    elif how == 'one missing of each':
        # An even number of files, but of different blocks.
        if len(bs) < 2:
            ctx.skip('one block')
            return
        os.remove('d/TEC_WALL_Grid_{0}.TEC'.format(bs[0].name))
        os.remove('d/TEC_WALL_Solution_{0}.TEC'.format(bs[1].name))
    elif how in ('short grid', 'short solution'):
        name = gname if how == 'short grid' else sname
        with open(name) as f:
            s = f.read().split('\n')
        head, body = s[:6], ' '.join(s[6:]).split()
        with open(name, 'w') as f:
            f.write('\n'.join(head + [' '.join(body[:-1 - c['k'] % 3])]) + '\n')
    elif how == 'layers':
        with open(gname) as f:
            s = f.read()
        with open(gname, 'w') as f:
            f.write(s.replace('K=     1', 'K=     2'))
    with quiet():
        bad = raises(run_script, 'convert/lazurit_to_crystal.py', argv)
    check(bad, 'accepted: {0} ({1} blocks, {2})', how, len(bs), sorted(os.listdir('d')))
    ctx.nt()
    ctx.cls(how)


@st.composite
def case(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 4, 4, 9, 13]))
    top = draw(st.sampled_from([13, 13, 120, 2000, 0]))
    one = st.integers(1, top) if top else st.integers(1, 20) | st.integers(1000000, 99999999)
    ids = draw(st.lists(one, min_size=n, max_size=n, unique=True))
    big = draw(st.sampled_from([6, 6, 6, 14]) if n < 9 else st.just(4))
    pre = draw(st.sampled_from(['T-15000_', 'T-15000_', 'Big_T-1_', '', 'T-0.5_']))
    end = draw(st.sampled_from(['', '', '', '.2', '_2', '.TEC']))
    side = st.integers(2, big)
    blocks = [{'I': draw(side), 'J': draw(side),
               'kind': draw(st.sampled_from(['sheet', 'sheet', 'ring'])),
               'share': draw(st.integers(0, 1)), 'name': '{0}B-{1}{2}'.format(pre, k, end)} for k in ids]
    if draw(st.integers(0, 29)) == 0:
        # A long narrow block.
        blocks[0][draw(st.sampled_from('IJ'))] = draw(st.integers(995, 1205))
        blocks[0]['kind'] = 'sheet'
        for k in blocks:
            k['I' if blocks[0]['J'] > 900 else 'J'] = 2
    return {'blocks': blocks, 'seed': draw(st.integers(0, 999)), 'scale': draw(st.sampled_from([1.0, 0.01, 25.0])),
            'wrap': draw(st.sampled_from(['ten', 'any', 'one', 'whole', 'stream'])),
            'litter': draw(st.integers(0, 1)), 'digits': draw(st.integers(0, 1))}


HOWS = ['no directory', 'no solution', 'no grid', 'other block', 'two grids', 'two solutions', 'foreign',
        'one missing of each', 'one missing of each', 'short grid', 'short solution', 'layers']


@st.composite
def case_refuse(draw):
    c = draw(case())
    c['how'] = draw(st.sampled_from(HOWS))
    c['k'] = draw(st.integers(0, 9))
    return c


def parts():
    return [Part('convert', case(), convert, 600, rule='2 x 2 quadrilaterals'),
            Part('refuse', case_refuse(), refuse, 400, rule='always')]
