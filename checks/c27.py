"""C27: ghost exchange and gathering deliver each value to its own cell."""
import json
import math
import os
import random
import sys
import types

from vf import env
from vf import mesh as M
from vf import simmpi
from vf.core import Part, check, fail, quiet
from vf.inv import pos
from hypothesis import strategies as st

ID = 'C27'
RULE = ('Case = grid, number of processes, schedule; the program crys.py runs as a whole in every process; '
        'non-trivial with two or more processes that exchange borders.')
ASSUMPTIONS = ['The communicator is a model; the native kernel and the process pool are stand-ins.',
               'Ranks hold their own copies of the grid, with stale values in the cells of other ranks.']


def value(seed, rank, f, v):
    r = random.Random('{0}|{1}|{2}|{3}'.format(seed, rank, f, v))
    return r.choice([0.0, -1.0, 1.0, 1.0, 1.0]) * r.uniform(0, 9)


class Modules:
    """Replaces modules for the run of the program."""

    def __init__(self, **mods):
        self.mods, self.old = mods, {}

    def __enter__(self):
        for k, v in self.mods.items():
            self.old[k] = sys.modules.get(k)
            sys.modules[k] = v
        self.path, self.limit = list(sys.path), sys.getrecursionlimit()

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
        sys.path[:] = self.path
        sys.setrecursionlimit(self.limit)


class Pool:
    def __init__(self, *a, **kw):
        pass

    def map(self, f, xs, *a):
        return [f(x) for x in xs]

    def starmap(self, f, xs, *a):
        return [f(*x) for x in xs]

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Program:
    """crys.py in all ranks."""

    def __init__(self, c, size):
        self.c, self.size = c, size
        self.grids, self.first, self.seen = {}, {}, {}

    def split(self, real):
        def split(*a, **kw):
            g = real(*a, **kw)
            rank = self.world.me()
            for i, f in enumerate(g.Faces):
                own = f.Zone is g.Zones[rank] if rank < len(g.Zones) else False
                who = rank if own else 100 + rank
                for v in ('T', 'Hw', 'Hi'):
                    f[v] = value(self.c['seed'], who, i, v) * (0.1 if v == 'Hi' else 1)
            self.grids[rank] = g
            self.first[rank] = [dict(f.Data) for f in g.Faces]
            self.zones = [[f.GloId for f in z.Faces] for z in g.Zones]
            return g
        return split

    def on_call(self, rank, kind):
        # The state after the exchange is that of the first call of the gathering.
        if kind in ('gather', 'allgather', 'Gatherv') and rank not in self.seen:
            self.seen[rank] = [dict(f.Data) for f in self.grids[rank].Faces]

    def run(self):
        import split as real
        self.world = simmpi.World(self.size, self.c['sched'], self.c['eager'], self.on_call)
        me = self

        class Mpi:
            Request = simmpi.Request
            ANY_SOURCE = ANY_TAG = simmpi.ANY
            DOUBLE, SUM, MAX, MIN = 'd', 'SUM', 'MAX', 'MIN'

        class World:
            def __getattr__(self, k):
                return getattr(me.comms[me.world.me()], k)
        Mpi.COMM_WORLD = World()
        self.comms = {}

        def hi(t, his, hw):
            t += 1.0
            his += 2.0
            hw += 3.0
        sp = types.ModuleType('split')
        sp.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith('__')})
        sp.split = self.split(real.split)
        with open(os.path.join(env.CODE, 'crys.py')) as f:
            code = compile(f.read(), os.path.join(env.CODE, 'crys.py'), 'exec')

        def body(rank, comm):
            self.comms[rank] = comm
            exec(code, {'__name__': '__main__', '__file__': os.path.join(env.CODE, 'crys.py')})

        mods = {'mpi4py': types.SimpleNamespace(MPI=Mpi), 'mpi4py.MPI': Mpi, 'split': sp,
                'swim': types.SimpleNamespace(hi=hi), 'multiprocessing': types.SimpleNamespace(Pool=Pool)}
        for k in ('mpi4py', 'mpi4py.MPI', 'swim', 'multiprocessing'):
            m = types.ModuleType(k)
            m.__dict__.update({a: getattr(mods[k], a) for a in dir(mods[k]) if not a.startswith('__')})
            mods[k] = m
        import numpy as np
        old = np.get_printoptions()
        try:
            with Modules(**mods), quiet():
                self.world.run(body)
        finally:
            np.set_printoptions(**{k: v for k, v in old.items() if k != 'override_repr'})


def put(c):
    m = M.build(c['mesh'])
    for v in ('T', 'Hw', 'Hi'):
        if v not in m.vars:
            m.vars.append(v)
        m.data[v] = [0.0] * len(m.faces)
    # The kernel grows two units of ice: large cells.
    m.points = [[300.0 * x for x in p] for p in m.points]
    os.makedirs('w')
    os.makedirs('cases/grids')
    M.write_dat(m, 'cases/grids/bunny.dat')
    with open('cases/grids/bunny.json', 'w') as f:
        json.dump(c['opts'], f)
    os.chdir('w')
    return m


def exchange(c, ctx):
    m = put(c)
    size = max(1, min(c['size'], len(m.faces)))
    p = Program(c, size)
    try:
        p.run()
    except simmpi.Deadlock as e:
        fail('{0}', e)
    ctx.cls('processes {0}'.format(size))
    check(sorted(k for z in p.zones for k in z) == list(range(len(m.faces))) and len(p.zones) == size,
          'cells are not shared out between {0} processes', size)
    owner = {k: r for r, z in enumerate(p.zones) for k in z}
    ghosts = 0
    # Cells beyond the borders of every rank, from the grid's own edges.
    for r in range(size):
        check(r in p.seen, 'process {0} never gathers', r)
        g = p.grids[r]
        want = [dict(d) for d in p.first[r]]
        for e in g.Edges:
            fs = [f.GloId for f in e.Faces]
            if len(fs) == 2 and owner[fs[0]] != owner[fs[1]]:
                for k in fs:
                    if owner[k] != r and r in (owner[fs[0]], owner[fs[1]]):
                        for v in ('T', 'Hw', 'Hi'):
                            want[k][v] = p.first[owner[k]][k][v]
                        ghosts += 1
        for k, (a, b) in enumerate(zip(want, p.seen[r])):
            check(a == b, 'process {0}, cell {1} of process {2}: {3} after the exchange, expected {4}',
                  r, k, owner[k], b, a)
    # The remeshed grid: every cell carries the ice of its own process plus two.
    import gsu
    from remeshing import TongRemesher
    from split import split
    with quiet():
        g = split('../cases/grids/bunny.dat', cry_dir='.', out_dat_file='../ref.dat',
                  split_strategy='n{0}'.format(size))
        for k, f in enumerate(g.Faces):
            f.Data = dict(p.seen[0][k], Hi=p.first[owner[k]][k]['Hi'] + 2.0)
        TongRemesher(mesh_filename='../cases/grids/bunny.dat', json_file='../cases/grids/bunny.json',
                     outdir='../')(g)
        g.store('../want.dat')
    check(os.path.exists('../remeshed.dat'), 'no remeshed grid')
    a, b = M.parse_dat('../remeshed.dat'), M.parse_dat('../want.dat')
    check([z.name for z in a.zones] == [z.name for z in b.zones], 'zones')
    far = max(abs(x) for q in m.points for x in q)
    for z, w in zip(a.zones, b.zones):
        check(len(z.nodes) == len(w.nodes) and z.faces == w.faces, 'zone {0} differs', z.name)
        for q, t in zip(z.nodes, w.nodes):
            check(math.dist(q, t) <= 1e-9 * far, 'remeshed node {0}, expected {1}', q, t)
        for v in b.vars:
            check(z.data[v] == w.data[v], 'remeshed data {0} of zone {1}', v, z.name)
    ctx.nt(size > 1 and ghosts > 0)
    if len({len(z) for z in p.zones}) > 1:
        ctx.cls('unequal zones')
    if size > 1 and any(not any(owner[f.GloId] != r for e in p.grids[r].Zones[r].Edges for f in e.Faces)
                        for r in range(size)):
        ctx.cls('process without neighbours')
    if p.world.late:
        ctx.cls('late delivery')


@st.composite
def many_case(draw):
    """Grid of many processes: more than a program that looks at some of them would see."""
    n = draw(st.integers(6, 8))
    c = draw(case())
    c['mesh']['comps'] = [['torus', n, n]]
    return dict(c, size=draw(st.sampled_from([11, 17, 24, 36, 67])), eager=draw(st.sampled_from([0, 50])))


@st.composite
def case(draw):
    mesh = draw(M.mesh_cases(bases=['plate', 'tube', 'torus', 'sphere', 'strip', 'octa', 'fan'], max_size=4,
                             max_comps=2, variables=['HTC', 'Beta', 'T'], data=('plain',), scales=(1.0,),
                             jitter=False))
    mesh['drop'] = draw(st.sampled_from([0, 0, 0, 10]))
    for x in mesh['comps']:
        if x[0] in ('tube', 'torus'):
            x[1] += 3
        if x[0] == 'torus':
            x[2] += 3
    return {'mesh': mesh, 'size': draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 7])),
            'seed': draw(st.integers(0, 999)), 'sched': draw(st.integers(0, 2 ** 20)),
            'eager': draw(st.sampled_from([0, 50, 100, 0])),
            'opts': {'remesh_nsteps_min': 1, 'remesh_nsteps_max': draw(st.integers(1, 2))}}


def parts():
    return [Part('program', case(), exchange, 900, rule='two processes with a border'),
            Part('many', many_case(), exchange, 16, rule='two processes with a border')]
