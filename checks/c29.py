"""C29: the native kernel updates each array in place and stays inside it."""
import importlib.util
import os
import pickle
import random
import resource
import shutil
import struct
import subprocess
import sys
import sysconfig

from vf import env
from vf.core import Harness, Part, check, fail
from hypothesis import strategies as st

ID = 'C29'
RULE = 'Case = three arrays; non-trivial when some array has an element (refusals: always).'
ASSUMPTIONS = ['The kernel is rebuilt from the sources in crysgsu/cpp/src by swig and g++ on every run.']
BUILD = {}

DRIVER = r'''
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "swim.h"
// stdin: three lengths, then all values; every array is a heap block of exactly its own size.
int main()
{
    long long n[3];
    double *a[3];
    if (fread(n, sizeof(long long), 3, stdin) != 3) return 3;
    for (int k = 0; k < 3; k++)
    {
        a[k] = (double *) malloc(n[k] * sizeof(double));
        if (n[k] && fread(a[k], sizeof(double), n[k], stdin) != (size_t) n[k]) return 3;
    }
    hi((int) n[0], a[0], (int) n[1], a[1], (int) n[2], a[2]);
    for (int k = 0; k < 3; k++)
        if (n[k]) fwrite(a[k], sizeof(double), n[k], stdout);
    for (int k = 0; k < 3; k++) free(a[k]);
    return 0;
}
'''


def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Harness('{0}: {1}'.format(' '.join(cmd), p.stdout[-2000:]))


def setup(d):
    """Builds the extension and an address-sanitized driver, side by side."""
    import numpy
    src = d + '/src'
    shutil.copytree(os.path.join(env.CODE, 'cpp', 'src'), src)
    with open(d + '/driver.cpp', 'w') as f:
        f.write(DRIVER)
    inc = ['-I' + src, '-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include()]
    san = subprocess.Popen(['g++', '-std=c++11', '-g', '-O1', '-fopenmp', '-fsanitize=address,undefined',
                            '-fno-sanitize-recover=all', '-Isrc', 'driver.cpp', 'src/swim.cpp', '-o', 'driver'],
                           cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    run(['swig', '-python', '-o', 'src/swim_wrap.cpp', 'src/swim.i'], d)
    wrap = subprocess.Popen(['g++', '-O1', '-std=c++11', '-fopenmp', '-fPIC'] + inc +
                            ['-c', 'src/swim_wrap.cpp', '-o', 'wrap.o'], cwd=d, stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, text=True)
    # The kernel itself with the flags of the project.
    run(['g++', '-O3', '-std=c++11', '-fopenmp', '-fPIC'] + inc + ['-c', 'src/swim.cpp', '-o', 'swim.o'], d)
    for p in (san, wrap):
        out = p.communicate()[0]
        if p.returncode:
            raise Harness('build failed: ' + out[-2000:])
    run(['g++', '-fopenmp', '-shared', '-fPIC', 'wrap.o', 'swim.o', '-o', 'src/_swim.so'], d)
    BUILD['dir'] = d


def module():
    d = BUILD['dir'] + '/src'
    if 'swim' not in BUILD:
        for name, path in (('_swim', d + '/_swim.so'), ('swim', d + '/swim.py')):
            spec = importlib.util.spec_from_file_location(name, path)
            m = importlib.util.module_from_spec(spec)
            sys.modules[name] = m
            spec.loader.exec_module(m)
        BUILD['swim'] = sys.modules['swim']
    return BUILD['swim']


def in_child(fn):
    """Result of fn() in a forked child: (value, None) or (None, how it died)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            data = pickle.dumps(fn())
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            os._exit(0)
        except BaseException:                                 # noqa: BLE001
            os._exit(77)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return None, 'signal {0}'.format(os.WTERMSIG(status))
    if os.WEXITSTATUS(status):
        return None, 'exit code {0}'.format(os.WEXITSTATUS(status))
    return pickle.loads(data), None


SPECIAL = [0.0, -0.0, float('nan'), float('inf'), -float('inf'), 5e-324, 1.7976931348623157e308, -1.0, -2.0,
           -3.0, 2.0 ** 53, 0.1]


def values(n, seed, style):
    r = random.Random(seed)
    if style == 'special':
        return [r.choice(SPECIAL) for _ in range(n)]
    if style == 'index':
        return [float(i) for i in range(n)]
    return [r.uniform(-1e3, 1e3) for _ in range(n)]


def same(a, b):
    return struct.pack('d', a) == struct.pack('d', b) or (a != a and b != b)


def expected(xs, k):
    return [x + (k + 1) for x in xs]


def in_place(c, ctx):
    import numpy as np
    swim = module()
    ns = c['n']
    xs = [values(n, c['seed'] + k, c['style']) for k, n in enumerate(ns)]
    pads = c['pads']
    if c['how'] == 'one buffer':
        # Slices of one buffer, one after another, in any order.
        order = list(range(3))
        random.Random(c['seed']).shuffle(order)
        big, at = [77.5] * pads[0], {}
        for k in order:
            at[k] = len(big)
            big += xs[k] + [77.5] * pads[k]
        bufs = [np.array(big, dtype=np.float64)]
        views = [bufs[0][at[k]:at[k] + ns[k]] for k in range(3)]
    elif c['how'] == 'rows':
        # Rows of two-dimensional arrays, as the solver passes them.
        bufs = [np.array([[1.5] * ns[k], xs[k], [-2.5] * ns[k]], dtype=np.float64).reshape(3, ns[k])
                for k in range(3)]
        views = [b[1] for b in bufs]
        at = {k: ns[k] for k in range(3)}
    else:
        bufs = [np.array([77.5] * pads[k] + xs[k] + [77.5] * pads[k], dtype=np.float64) for k in range(3)]
        views = [b[pads[k]:pads[k] + ns[k]] for k, b in enumerate(bufs)]
        at = {k: pads[k] for k in range(3)}
    want = [b.reshape(-1).tolist() for b in bufs]
    for k in range(3):
        w = want[0] if c['how'] == 'one buffer' else want[k]
        w[at[k]:at[k] + ns[k]] = expected(xs[k], k)

    def call():
        res = swim.hi(*views)
        return res, [b.reshape(-1).tolist() for b in bufs]
    out, died = in_child(call)
    check(died is None, 'lengths {0}: the process died: {1}', ns, died)
    res, got = out
    check(res is None, 'the kernel returns {0!r}', res)
    for b, (g, w) in enumerate(zip(got, want)):
        for i, (x, y) in enumerate(zip(g, w)):
            check(same(x, y), 'lengths {0} ({1}): buffer {2} element {3} is {4!r}, expected {5!r}', ns, c['how'],
                  b, i, x, y)
    ctx.nt(any(ns))
    ctx.cls(c['how'], 'equal' if len(set(ns)) == 1 else 'unequal', c['style'])


def sanitized(c, ctx):
    ns = c['n']
    xs = [values(n, c['seed'] + k, c['style']) for k, n in enumerate(ns)]
    data = struct.pack('3q', *ns) + b''.join(struct.pack('{0}d'.format(len(x)), *x) for x in xs)

    def limits():
        resource.setrlimit(resource.RLIMIT_AS, (resource.getrlimit(resource.RLIMIT_AS)[1],) * 2)
    p = subprocess.run([BUILD['dir'] + '/driver'], input=data, capture_output=True, preexec_fn=limits,
                       env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0', OMP_NUM_THREADS='4'))
    err = p.stderr.decode(errors='replace')
    if p.returncode == 3 or 'failed to allocate' in err or 'ReserveShadowMemory' in err:
        raise Harness('driver: ' + err[-500:])
    line = [s for s in err.split('\n') if 'ERROR' in s or 'runtime error' in s]
    check(p.returncode == 0, 'lengths {0}: {1}', ns, line[0] if line else 'exit code {0}'.format(p.returncode))
    got = struct.unpack('{0}d'.format(sum(ns)), p.stdout)
    k = 0
    for a, x in enumerate(xs):
        for i, y in enumerate(expected(x, a)):
            check(same(got[k], y), 'lengths {0}: array {1} element {2} is {3!r}, expected {4!r}', ns, a, i, got[k], y)
            k += 1
    ctx.nt(any(ns))
    ctx.cls('equal' if len(set(ns)) == 1 else 'unequal')


BAD = ['float32', 'int64', 'int32', 'complex128', 'object', 'bool', 'big endian', 'stride 2', 'reversed',
       'column', 'matrix', 'scalar', 'list', 'tuple', 'None', 'bytes', 'missing', 'extra', 'longdouble']


def refused(c, ctx):
    import numpy as np
    swim = module()
    n, k, how = c['len'], c['which'], c['how']
    base = np.array(values(n, c['seed'], 'plain'))
    args = [np.array(values(n, c['seed'] + j, 'plain')) for j in range(3)]
    keep = None
    if how in ('float32', 'int64', 'int32', 'complex128', 'object', 'bool', 'longdouble'):
        bad = base.astype(how)
    elif how == 'big endian':
        bad = base.astype('>f8')
    elif how == 'stride 2':
        keep = np.array(values(2 * n + 1, c['seed'], 'plain'))
        bad = keep[:2 * n:2]
    elif how == 'reversed':
        keep = base
        bad = base[::-1]
    elif how == 'column':
        keep = np.array(values(3 * n, c['seed'], 'plain')).reshape(n, 3)
        bad = keep[:, 1]
    elif how == 'matrix':
        bad = np.array([base, base])
    elif how == 'scalar':
        bad = np.array(1.5)
    else:
        bad = {'list': base.tolist(), 'tuple': tuple(base.tolist()), 'None': None, 'bytes': base.tobytes(),
               'missing': None, 'extra': base}[how]
    if how == 'missing':
        del args[k]
    elif how == 'extra':
        args.append(bad)
    else:
        args[k] = bad
    watch = [a for a in args + [keep] if isinstance(a, np.ndarray)]

    def call():
        before = [a.tolist() for a in watch]
        try:
            swim.hi(*args)
            err = None
        except Exception as e:                                # noqa: BLE001
            err = '{0}: {1}'.format(type(e).__name__, e)
        return err, before == [a.tolist() for a in watch]
    out, died = in_child(call)
    check(died is None, '{0}: the process died: {1}', how, died)
    err, kept = out
    check(err is not None, 'array {0} given as {1} is accepted', k, how)
    check(kept, 'array {0} given as {1}: refused, but arrays changed', k, how)
    ctx.nt()
    ctx.cls(how)


LEN = st.one_of(st.integers(0, 9), st.sampled_from([15, 16, 17, 63, 64, 65, 100, 257, 1000, 4097]))


@st.composite
def case(draw):
    n = draw(LEN)
    ns = [n, n, n]
    if draw(st.integers(0, 2)):
        ns = [draw(LEN) for _ in range(3)]
    return {'n': ns, 'seed': draw(st.integers(0, 9999)),
            'style': draw(st.sampled_from(['plain', 'index', 'special'])),
            'how': draw(st.sampled_from(['own', 'one buffer', 'rows'])),
            'pads': [draw(st.integers(1, 70)) for _ in range(3)]}


@st.composite
def case_bad(draw):
    return {'how': draw(st.sampled_from(BAD)), 'which': draw(st.integers(0, 2)), 'len': draw(st.integers(2, 20)),
            'seed': draw(st.integers(0, 999))}


def parts():
    return [Part('extension', case(), in_place, 800, rule='an element exists'),
            Part('sanitized', case(), sanitized, 500, rule='an element exists'),
            Part('refused', case_bad(), refused, 300, rule='always')]
