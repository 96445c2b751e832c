"""C34: the remesh command line."""
import json
import os
import shutil

from vf import ice
from vf import mesh as M
from vf.core import Part, check, quiet
from vf.util import listing, load, raises, run_script
from hypothesis import strategies as st

ID = 'C34'
RULE = ('Case = set of iced grids, parameter file and invocation; non-trivial when several grids were '
        'remeshed or parameters mattered.')
ASSUMPTIONS = ['Different inputs of a run have different output names; a name has the result marker _r_ once at '
               'most; no directory entry ending in .dat is a directory.']
STEMS = ['wing', 'bunny_00003', 'a.b', 'r', '_', 'крыло', 'x_', 'grid.dat', 'my wing', 'rr_0', 'a..b', '..c']


def alone(path, opts, out, loud=False):
    """Remesh one grid in memory and store it; the grids of the steps when asked for."""
    import gsu
    from remeshing import TongRemesher
    g = gsu.Grid()
    g.load(path)
    with quiet():
        os.makedirs('steps')
        TongRemesher('/' + os.path.basename(path), opts, 'steps', verbose=loud)(g)
    g.store(out)
    steps = {}
    for f in os.listdir('steps'):
        with open('steps/' + f, 'rb') as h:
            steps[f] = h.read()
    shutil.rmtree(os.path.abspath('steps'))
    return steps


def run(c, ctx):
    os.makedirs('in')
    want, grids = {}, []
    for x in c['grids']:
        m = M.build(x['mesh'])
        if not ice.smooth(m.points, m.faces):
            continue
        ice.put_ice(m, x['ice'])
        name = x['stem'] + ('_r_' + x['ts'] if x['marked'] else '_' + x['ts']) + '.dat'
        out = x['stem'] + '_' + x['ts'] + '.dat'
        if out in want:
            continue
        load(m, name='tmp.dat').store('in/' + name)
        grids.append((name, out))
        want[out] = None
    if not grids:
        ctx.skip('no grid')
        return
    os.remove('tmp.dat')
    if c['single']:
        grids = grids[:1]
        for f in os.listdir('in'):
            if f != grids[0][0]:
                os.remove('in/' + f)
    for k, f in enumerate(c['other']):
        with open('in/' + f, 'w') as h:
            h.write('not a grid {0}\n'.format(k))
    opts = None
    if c['opts'] is not None:
        opts = 'p.json'
        with open(opts, 'w') as h:
            json.dump(c['opts'], h)
    want, steps = {}, {}
    for name, out in grids:
        own = alone('in/' + name, opts, 'ref.dat', c['verb'] > 1)
        if own or c['verb'] > 1:
            lo, hi = [(c['opts'] or {}).get('remesh_nsteps_' + k, d) for k, d in (('min', 0), ('max', 10))]
            check(lo <= len(own) <= hi, 'grids of {0} steps, expected {1} to {2}', len(own), lo, hi)
        steps.update(own)
        with open('ref.dat', 'rb') as h:
            want[out] = h.read()
    os.remove('ref.dat')
    dst = {'plain': 'out', 'deep': 'a/b/c', 'exists': 'out', 'default': '.', 'abs': os.path.abspath('o1')}[c['out']]
    if c['out'] == 'exists':
        os.makedirs('out')
    # Outputs of an older run are in the way.
    old = set()
    for k, out in enumerate(want):
        if c['stale'] >> k & 1:
            os.makedirs(dst, exist_ok=True)
            old.add(os.path.normpath(os.path.relpath(os.path.join(dst, out), '.')))
            with open(os.path.join(dst, out), 'wb') as h:
                # Nothing at all, a part of what is expected or something longer than that.
                h.write([b'', want[out][:len(want[out]) // 2], want[out] * 2][k % 3])
            ctx.cls('old output')
    before = listing('.')
    src = c['src']
    how = {'plain': 'in', 'slash': 'in/', 'abs': os.path.abspath('in'), 'dot': './in', 'here': '.'}[src]
    top = os.getcwd()
    if src == 'here':
        # Run inside of the source directory: grid names have no directory at all.
        os.chdir('in')
        dst = os.path.join('..', dst) if not os.path.isabs(dst) else dst
        opts = os.path.join('..', opts) if opts else None
    args = []
    if c['single']:
        args += ['-g', grids[0][0] if src == 'here' else os.path.join(how, grids[0][0])]
    else:
        args += ['-d', how]
    if opts:
        args += ['-j', opts]
    if c['out'] != 'default' or src == 'here':
        args += ['-o', dst]
    args += ['-' + 'v' * c['verb']] if c['verb'] else []
    try:
        with quiet():
            run_script('remesh.py', args)
    finally:
        os.chdir(top)
    after = listing('.')
    for f, b in before.items():
        check(f in after, 'file {0} is lost', f)
        check(after[f] == b or f in old, 'file {0} was changed', f)
    rel = os.path.relpath({'default': '.', 'abs': 'o1'}.get(c['out'], dst if src != 'here' else
                          dst[3:] if dst.startswith('../') else dst), '.')
    made = {f: b for f, b in after.items() if f not in before or f in old}
    for out, b in want.items():
        k = os.path.normpath(os.path.join(rel, out))
        check(k in made, 'no output grid {0}; made {1}', k, sorted(made))
        check(made.pop(k) == b, 'grid {0} differs from remeshing it alone', out)
    for f, b in steps.items():
        k = os.path.normpath(os.path.join(rel, f))
        check(k in made, 'no grid {0} of a step; made {1}', k, sorted(made))
        # The contents are those of listing(): bytes of the file.
        check(made[k] == b, 'grid {0} of a step differs from remeshing its grid alone', f)
        ctx.cls('grids of steps')
    for f in made:
        check(os.path.normpath(os.path.dirname(f) or '.') == os.path.normpath(rel),
              'file {0} was written outside of the output directory', f)
        # Intermediate grids of the steps and the report.
        loud = c['verb'] > 1 or (c['opts'] or {}).get('remesh_verbose')
        ok = loud and (f.endswith('.dat') or os.path.basename(f) == 'report.txt')
        check(ok, 'unexpected file {0}', f)
    ctx.cls('single' if c['single'] else '{0} grids'.format(len(grids)), 'out ' + c['out'], 'src ' + src,
            'verbosity {0}'.format(c['verb']))
    ctx.nt(len(grids) > 1 or bool(c['opts']))


@st.composite
def case(draw):
    o = draw(st.one_of(st.none(), ice.options(nss=True)))
    if o is not None:
        o['remesh_nsteps_max'] = min(o['remesh_nsteps_max'], 3)
        o['remesh_nsteps_min'] = min(o['remesh_nsteps_min'], 3)
        if draw(st.sampled_from([0, 0, 0, 0, 0, 1])):
            # Numbers of steps of two digits.
            o['remesh_nsteps_max'], o['remesh_nsteps_min'] = 14, 12
    gs = []
    for _ in range(draw(st.integers(1, 4) | st.sampled_from([1, 2, 3, 4, 7, 11]))):
        gs.append({'mesh': draw(ice.cases(max_size=2, max_comps=1, max_zones=2)), 'ice': draw(ice.ice()),
                   'stem': draw(st.sampled_from(STEMS)),
                   'ts': draw(st.sampled_from(['000010000000', '000020000000', '1', 'r'])),
                   'marked': draw(st.sampled_from([1, 1, 0]))})
    src = draw(st.sampled_from(['plain', 'slash', 'abs', 'dot', 'here']))
    out = draw(st.sampled_from(['plain', 'deep', 'exists', 'default', 'abs']))
    verb = draw(st.sampled_from([0, 0, 1, 2]))
    if o is not None and draw(st.sampled_from([0, 0, 1])):
        o['remesh_verbose'] = True
    return {'grids': gs, 'opts': o, 'single': draw(st.sampled_from([0, 0, 1])), 'src': src, 'out': out, 'verb': verb,
            'stale': draw(st.sampled_from([0, 0, 1, 2, 3, 15])),
            'other': draw(st.lists(st.sampled_from(['a.txt', 'b.cry', 'c.dat.bak', 'dat', 'p.json', 'wing_dat']),
                                   unique=True, max_size=3))}


def refuse(c, ctx):
    m = M.build({'comps': [['plate', 1, 1]]})
    ice.put_ice(m, {'mode': 'uniform', 'amp': 0.05, 'seed': 1})
    os.makedirs('in')
    load(m, name='in/m_r_1.dat')
    before = listing('.')
    if c['what'] == 'json':
        args = ['-g', 'in/m_r_1.dat', '-j', 'no.json', '-o', 'out']
    elif c['what'] == 'json dir':
        args = ['-d', 'in', '-j', 'no.json', '-o', 'out']
    elif c['what'] == 'grid':
        args = ['-g', 'in/no.dat', '-o', 'out']
    elif c['what'] == 'dir':
        args = ['-d', 'no', '-o', 'out']
    elif c['what'] == 'none':
        args = ['-o', 'out']
    else:
        args = ['-d', 'in', '-g', 'in/m_r_1.dat', '-o', 'out']
    ctx.nt()
    with quiet():
        check(raises(run_script, 'remesh.py', args), 'call {0} was accepted', args)
    after = listing('.')
    check(after == before, 'files changed by the refused call {0}: {1}', args, sorted(set(after) ^ set(before)))
    shutil.rmtree(os.path.abspath('in'))


def parts():
    return [Part('tool', case(), run, 110, rule='several grids or a parameter file'),
            Part('refuse', st.fixed_dictionaries({'what': st.sampled_from(
                ['json', 'json dir', 'grid', 'dir', 'none', 'both'])}), refuse, 6)]
