"""C37: every tool is reproducible."""
import json
import os
import random
import re
import shutil
import subprocess
import sys

from vf import env, ice
from vf import mesh as M
from vf.core import Part, check, quiet
from vf.util import listing, load, run_script
from checks import c19, c24, c25, c26, c32
from checks.c18 import make_air
from hypothesis import strategies as st

ID = 'C37'
RULE = ('Case = tool, input files, options, an order of directory entries and a history (other inputs of the same '
        'names, other tools, leftovers of an earlier run); non-trivial when the tool wrote a file of more than ten '
        'lines.')
ASSUMPTIONS = ['Reports of elapsed time are not compared; sums of balance tables are compared up to rounding.']


SWAP = bytes.maketrans(b'123456789', b'214365879')

# A new process runs several tools one after another, each in its directory.
DRIVER = '''
import json, os, runpy, sys
top, out, todo = os.getcwd(), os.dup(1), json.load(sys.stdin)
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
for d, script, argv in todo:
    os.chdir(d)
    sys.argv = [script] + argv
    try:
        runpy.run_path(script, run_name='__main__')
        err = ''
    except (Exception, SystemExit) as e:
        err = type(e).__name__
    os.chdir(top)
    os.write(out, (err + '\\n').encode())
'''

# -------------------------------------------------------------------------------- inputs of the tools

def in_split(c, r):
    M.write_dat(M.build(c['mesh']), 'g.dat')
    with open('p.json', 'w') as f:
        json.dump({'split_strategy': c['strategy'], 'recovery_factor': 0.85, 'heating_system': {
            'elements': [{'zone': n} for n in sorted(set(M.build(c['mesh']).znames))[:c['fixed']]]}}, f)
    return 'split.py', ['g.dat', '-j', 'p.json'] + (['-c', 'out'] if c['cry'] else ['-o', 'out.dat'])


def in_merge(c, r):
    m = M.build(c['mesh'])
    M.write_dat(m, 'g.dat')
    os.makedirs('src')
    n, todo = len(m.faces), []
    vs = ['T', 'Hw', 'Hi']
    for k in range(c['stamps']):
        of = [r.randrange(c['procs']) for _ in range(n)]
        for p in range(c['procs']):
            t = 'VARIABLES="GloId", "T", "Hw", "Hi"\n' + ''.join(
                '{0} {1}\n'.format(i, ' '.join(repr(r.uniform(-9, 9)) for _ in vs)) for i in range(n) if of[i] == p)
            todo.append(('src/g_{0:05d}_{1:012d}.txt'.format(p, 7 * k), t))
    for p in range(c['procs']):
        t = ';'.join(['time'] + ['c%d' % j for j in range(9)]) + '\n'
        todo.append(('src/balance_{0:05d}.csv'.format(p), t + ''.join(
            ';'.join([repr(1.0 * i)] + [repr(r.uniform(-9, 9)) for _ in range(9)]) + '\n' for i in range(c['rows']))))
    r.shuffle(todo)
    for name, t in todo:
        with open(name, 'w') as f:
            f.write(t)
    return 'merge.py', ['g.dat', 'src', 'out/dst']


def in_remesh(c, r):
    os.makedirs('src')
    for i, x in enumerate(c['grids']):
        m = M.build(x['mesh'])
        if ice.smooth(m.points, m.faces):
            ice.put_ice(m, x['ice'])
            load(m, name='t.dat').store('src/g{0}_r_{1}.dat'.format(i, 10 - i))
            os.remove('t.dat')
    with open('p.json', 'w') as f:
        json.dump(c['opts'], f)
    os.makedirs('out')
    return 'remesh.py', ['-d', 'src', '-j', 'p.json', '-o', 'out']


def in_refine(c, r):
    m = c32.numbered(c32.scene(c))
    M.write_dat(m, 'a.dat')
    return 'refine', ['a.dat', 'b.dat']


def in_drops(c, r):
    air = make_air(c['air'])
    M.write_dat(c19.scene(c), 'stall.dat')
    with open('air.dat', 'w') as f:
        f.write(c19.air_text(air, c))
    L = c['air']['size']
    return 'drops.py', ['stall.dat', 'air.dat', 'out.dat', '-d', repr(c['dist'] * L), '-m', '15', '-s', repr(c['thr']),
                        '-t', repr(c['dt'] * L / max(1.0, c['air']['speed']))]


def in_transfer(c, r):
    tool = c['tool']
    src, dst = c24.pair(c, ['T', 'Hw'] if tool == 'interpolate' else ['Beta'])
    M.write_dat(src, 's.dat')
    M.write_dat(dst, 't.dat')
    return 'convert/{0}.py'.format(tool), (['s.dat', 't.dat', '-res', 'o.dat'] if tool == 'interpolate' else
                                           ['t.dat', 's.dat', 'o.dat'])


def in_lazurit(c, r):
    bs = c25.blocks(c)
    r.shuffle(bs)
    c25.write(bs, 'd', c)
    return 'convert/lazurit_to_crystal.py', ['d', 'o.dat']


def in_ansys(c, r):
    c = dict(c, dir='in')
    zs = c26.layout(c, 'in')
    return 'convert/ansys_to_crystal.py', c26.argv(c, 'in', zs)[1]


TOOLS = {'split': in_split, 'merge': in_merge, 'remesh': in_remesh, 'refine': in_refine, 'drops': in_drops,
         'transfer': in_transfer, 'lazurit': in_lazurit, 'ansys': in_ansys}


# ----------------------------------------------------------------------------------------- running

class Scan:
    """Directory entries in another order."""

    def __init__(self, it, r):
        with it:
            self.items = sorted(it, key=lambda e: e.name)
        r.shuffle(self.items)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __iter__(self):
        return iter(self.items)

    def __next__(self):
        if not self.items:
            raise StopIteration
        return self.items.pop(0)

    def close(self):
        pass


class order:
    """os.listdir and os.scandir list directories in a given order."""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def __enter__(self):
        self.old = os.listdir, os.scandir
        ls, sc = self.old

        def listdir(*a):
            x = sorted(ls(*a))
            self.r.shuffle(x)
            return x
        os.listdir, os.scandir = listdir, lambda *a: Scan(sc(*a), self.r)

    def __exit__(self, *a):
        os.listdir, os.scandir = self.old
        return False


def go(d, script, argv):
    """Run a tool in a directory.  Return the name of the error it ended with, if any."""
    top = os.getcwd()
    os.chdir(d)
    try:
        with quiet():
            if script == 'refine':
                c32.refine(*argv)
            else:
                run_script(script, argv)
        return ''
    except (Exception, SystemExit) as e:                      # noqa: BLE001
        return type(e).__name__
    finally:
        os.chdir(top)


def inputs(d, c, r):
    top = os.getcwd()
    os.makedirs(d)
    os.chdir(d)
    try:
        return TOOLS[c['tool']](c['c'], r)
    finally:
        os.chdir(top)


def compare(a, b, what):
    check(sorted(a) == sorted(b), '{0}: files {1} and {2}', what, sorted(a), sorted(b))
    for k in a:
        x, y = a[k], b[k]
        if os.path.basename(k) == 'report.txt':
            x, y = (re.sub(rb'[0-9.]+ sec', b'', s) for s in (x, y))
        if k.endswith('.csv') and x != y:
            x, y = x.decode().split('\n'), y.decode().split('\n')
            check(x[0] == y[0] and len(x) == len(y), '{0}: tables {1} differ', what, k)
            for s, t in zip(x[1:], y[1:]):
                s, t = ([float(v) for v in q.split(';') if v] for q in (s, t))
                check(len(s) == len(t) and all(abs(u - v) <= 1e-9 * (1 + abs(u)) for u, v in zip(s, t)),
                      '{0}: tables {1} differ', what, k)
        else:
            check(x == y, '{0}: contents of {1} differ', what, k)


def fresh():
    """Forget the modules of the tree, so that nothing is left of earlier cases."""
    for k, m in list(sys.modules.items()):
        f = getattr(m, '__file__', None) or ''
        if f.startswith(env.CODE + os.sep) and f.endswith('.py'):
            del sys.modules[k]


def again(c, ctx):
    """The same in the same process after other things."""
    script, argv = inputs('a', c, random.Random(c['seed']))
    fresh()
    shutil.copytree('a', 'start')
    err = go('a', script, argv)
    a = listing('a')
    fresh()
    # Same files, made in another order, with other times and another history.
    how = c['how']
    if how == 'other inputs':
        # The same tool with other files of the same names just before.
        o = inputs('b', c['before'], random.Random(c['seed'] + 1))
        go('b', *o)
        shutil.rmtree(os.path.abspath('b'))
    elif how == 'other tool':
        o = inputs('x', c['before'], random.Random(c['seed'] + 1))
        go('x', *o)
    stale = set()
    if how == 'same size':
        # Other values in files of the same names, sizes and times just before.
        shutil.copytree('start', 'b')
        for f in listing('b'):
            f = os.path.join('b', f)
            with open(f, 'rb') as h:
                s = h.read()
            with open(f, 'wb') as h:
                h.write(re.sub(rb'(?<=\.)[0-9]+', lambda q: q.group(0).translate(SWAP), s))
            os.utime(f, (10 ** 9, 10 ** 9))
        go('b', script, argv)
        shutil.rmtree(os.path.abspath('b'))
    if how == 'stale outputs':
        # Files written by the tool for other inputs stay where they are.
        o = inputs('b', c['before'], random.Random(c['seed'] + 1))
        fs = listing('b')
        go('b', *o)
        for f in fs:
            os.remove(os.path.join('b', f))
        stale = set(listing('b')) - set(listing('start'))
    shutil.copytree('start', 'b', dirs_exist_ok=True)
    r = random.Random(c['seed'] + 2)
    random.seed(c['seed'])
    fs = sorted(listing('start'))
    r.shuffle(fs)
    for f in fs:
        f = os.path.join('b', f)
        with open(f, 'rb') as h:
            s = h.read()
        os.remove(f)
        with open(f, 'wb') as h:
            h.write(s)
        t = 10 ** 9 if how == 'same size' else r.randint(1, 10 ** 9)
        os.utime(f, (t, t))
    if how == 'leftovers':
        check(go('b', script, argv) == err, 'the second run ended in another way')
        for f in listing('start'):
            shutil.copyfile(os.path.join('start', f), os.path.join('b', f))
    with order(c['seed']):
        e = go('b', script, argv)
    check(e == err, 'a run ended with {0!r}, the other one with {1!r}', err, e)
    compare(a, {k: v for k, v in listing('b').items() if k in a or k not in stale}, '{0}, {1}'.format(c['tool'], how))
    s = listing('start')
    for f in s:
        check(a.get(f) == s[f] or script.startswith('convert/ansys') and f not in s, 'input {0} changed', f)
    new = [a[f] for f in a if f not in s]
    ctx.cls(c['tool'], how, 'error' if err else 'done')
    ctx.nt(any(x.count(b'\n') > 10 for x in new))


def process(c, ctx):
    """The same in another process with another hash seed."""
    errs, todo = [], []
    for i, x in enumerate(c['runs']):
        a, b = 'a{0}'.format(i), 'b{0}'.format(i)
        script, argv = inputs(a, x, random.Random(c['seed'] + i))
        shutil.copytree(a, b)
        errs.append(go(a, script, argv))
        todo.append((b, os.path.join(env.CODE, 'refine.py' if script == 'refine' else script), [str(q) for q in argv]))
    e = dict(os.environ, PYTHONHASHSEED=str(c['hash']), PYTHONDONTWRITEBYTECODE='1',
             PYTHONPATH=os.pathsep.join(sys.path))
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', DRIVER], env=e, capture_output=True, timeout=600,
                       input=json.dumps(todo).encode())
    got = p.stdout.decode().split('\n')[:-1]
    check(len(got) == len(errs), 'the process ended with code {0}: {1}', p.returncode, p.stderr[-300:])
    for i, x in enumerate(c['runs']):
        check(got[i] == errs[i], '{0}: a run ended with {1!r}, the other one with {2!r}', x['tool'], errs[i], got[i])
        compare(listing('a{0}'.format(i)), listing('b{0}'.format(i)), x['tool'])
        ctx.cls(x['tool'], 'error' if errs[i] else 'done')
    ctx.nt('' in errs)


# ------------------------------------------------------------------------------------------- cases

GRID = M.mesh_cases(max_size=3, max_zones=4, variables=['T', 'Hw', 'Hi', 'Beta'], min_vars=1)
split_case = st.fixed_dictionaries({
    'mesh': GRID, 'strategy': st.sampled_from(['n1', 'n3', 'n7', 'h1', 'h2', 'h3']), 'fixed': st.integers(0, 3),
    'cry': st.integers(0, 1)})
merge_case = st.fixed_dictionaries({'mesh': GRID, 'stamps': st.integers(1, 4), 'procs': st.integers(1, 4),
                                    'rows': st.integers(1, 4)})


@st.composite
def remesh_case(draw):
    o = draw(ice.options(nss=True))
    o['remesh_nsteps_max'] = min(o['remesh_nsteps_max'], 2)
    o['remesh_nsteps_min'] = min(o['remesh_nsteps_min'], 2)
    return {'opts': o, 'grids': [{'mesh': draw(ice.cases(max_size=2, max_comps=1, max_zones=2)),
                                  'ice': draw(ice.ice())} for _ in range(draw(st.integers(1, 3)))]}


CASES = {'split': split_case, 'merge': merge_case, 'remesh': remesh_case(), 'refine': c32.touch_case(),
         'drops': c19.case, 'transfer': c24.case_tool(), 'lazurit': c25.case(), 'ansys': c26.case()}


@st.composite
def one(draw, tool=None):
    t = tool or draw(st.sampled_from(sorted(CASES)))
    return {'tool': t, 'c': draw(CASES[t])}


@st.composite
def again_case(draw):
    c = draw(one())
    c['seed'] = draw(st.integers(0, 2 ** 20))
    c['how'] = draw(st.sampled_from(['other inputs', 'other inputs', 'other tool', 'leftovers', 'stale outputs', 'same size']))
    if c['how'] in ('other inputs', 'stale outputs'):
        c['before'] = draw(one(c['tool']))
    elif c['how'] == 'other tool':
        c['before'] = draw(one())
    return c


@st.composite
def process_case(draw):
    return {'runs': draw(st.lists(one(), min_size=1, max_size=8)), 'seed': draw(st.integers(0, 2 ** 20)),
            'hash': draw(st.integers(1, 1000))}


def parts():
    return [Part('again', again_case(), again, 600, rule='a file of more than ten lines was written'),
            Part('process', process_case(), process, 60, rule='a tool finished')]
