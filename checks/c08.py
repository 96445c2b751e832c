"""C08: the split tool honours strategy, fixed zones and recovery factor."""
import json
import os

from vf import cry
from vf import mesh as M
from vf.core import Part, check
from vf.util import listing, raises, run_script
from hypothesis import strategies as st

ID = 'C08'
RULE = ('Case = generated grid file, strategy, fixed zones, recovery factor, output mode, called as a '
        'function or as a command; non-trivial when the call must succeed with more than one zone.')


# Whatever else is said of a heating element, its zone is fixed.
EXTRA = [{'power': 1}, {'power': 0}, {'enabled': False}, {}, {'power': 0.0, 'name': '', 'cycle': None},
         {'type': 'off', 'power': -1, 'zones': []}]


def names_of(c):
    return c['stem'] + ('_' + c['ts'] if c['ts'] else '') + '.dat'


def expect(c, m, strategy, fixed):
    """None when an error is due, otherwise (kind, number)."""
    zones = m.znames
    if any(f not in zones for f in fixed):
        return None
    k = strategy[1:]
    if strategy[:1] not in ('h', 'n') or not k.isdigit():
        return None
    k = int(k)
    nfix = sum(1 for z in zones if z in fixed)
    if strategy[0] == 'h':
        return ('h', k)
    if k == 0 or (k == 1 and fixed) or (k > 1 and nfix >= k):
        return None
    return ('n', k)


def split_tool(c, ctx):
    import split
    m = M.build(c['mesh'])
    name = names_of(c)
    os.makedirs('in')
    path = 'in/' + name
    M.write_dat(m, path)
    zset = []
    for z in m.znames:
        if z not in zset:
            zset.append(z)
    fixed = [zset[i % len(zset)] for i in c['fix']]
    if c['unknown']:
        fixed.append('no such zone')
    js = {}
    if c['json'] & 1:
        js['split_strategy'] = c['strategy']
    if c['json'] & 2:
        js['recovery_factor'] = c['rf']
    if c['json'] & 4:
        js['heating_system'] = {'elements': [dict({'zone': z}, **EXTRA[(c['extra'] + k) % len(EXTRA)])
                                             for k, z in enumerate(fixed)]}
    elif c['json'] & 8:
        js['heating_system'] = {'other': 1}
    with open('in/p.json', 'w') as f:
        json.dump(js, f)
    out = 'out/sub/cry' if c['mode'] == 'cry' else 'in/res.dat'
    stale = []
    if c['made'] and c['mode'] == 'cry':
        os.makedirs(out)
        with open(out + '/old.cry', 'w') as f:
            f.write('old')
        if c['stale']:
            # Left behind by an earlier run: longer files of the same names.
            for n in ('%s_%05d_%s.cry' % (c['stem'], i, c['ts'] or '0' * 12) for i in range(3)):
                stale.append(out + '/' + n)
                with open(stale[-1], 'w') as f:
                    f.write('stale line of an earlier run\n' * 9000)
    if c['stale'] and c['mode'] == 'dat':
        with open(out, 'w') as f:
            f.write('stale line of an earlier run\n' * 9000)
    before = listing()
    if c['cli']:
        # Defaults: n1, no fixed zones, factor 1; JSON overrides them, the command line overrides JSON.
        argv = [path, '-c' if c['mode'] == 'cry' else '-o', out]
        strategy, fz, rf = 'n1', [], 1.0
        if c['usejson']:
            argv += ['-j', 'in/p.json']
            strategy = js.get('split_strategy', 'n1')
            fz = fixed if c['json'] & 4 else []
            rf = js.get('recovery_factor', 1.0)
        if c['override']:
            argv += ['-s', c['override']]
            strategy = c['override']
        call = lambda: run_script('split.py', argv)           # noqa: E731
    else:
        strategy, fz, rf = c['strategy'], fixed, c['rf']
        call = lambda: split.split(path, out if c['mode'] == 'cry' else None,   # noqa: E731
                                   out if c['mode'] == 'dat' else None, strategy, list(fz), rf)
    want = expect(c, m, strategy, fz)
    ctx.cls('cli' if c['cli'] else 'function', c['mode'], 'error' if want is None else want[0])
    if want is None:
        check(raises(call), 'strategy {0!r} with fixed zones {1} of {2} was accepted', strategy, fz,
              m.znames)
        return
    call()
    after = listing()
    check(all(after.get(k) == v for k, v in before.items() if k != out and k not in stale),
          'the tool changed its inputs or foreign files')
    fresh = sorted(k for k in after if after[k] != before.get(k))
    full = sorted((M.cyclic(t), tuple(d.get(v, None) for v in m.vars), z)
                  for z, t, d in M.expected_cells(m))
    zones = []
    if c['mode'] == 'dat':
        check(fresh == ['in/res.dat'], 'files made: {0}', fresh)
        p = M.parse_dat(out)
        vs = list(m.vars) + ([] if 'RecoveryFactor' in m.vars else ['RecoveryFactor'])
        check(p.vars == vs, 'variables {0} became {1}', m.vars, p.vars)
        for z in p.zones:
            zones.append((z.name, sorted((M.cyclic(tuple(tuple(z.nodes[i]) for i in t)),
                                          tuple(z.data[v][k] for v in m.vars))
                                         for k, t in enumerate(z.faces))))
            for k in range(len(z.faces)):
                if 'RecoveryFactor' not in m.vars:
                    check(z.data['RecoveryFactor'][k] == rf, 'recovery factor {0} became {1}', rf,
                          z.data['RecoveryFactor'][k])
    else:
        ts = c['ts'] or '000000000000'
        cries = [f for f in fresh if f.endswith('.cry')]
        check(sorted(fresh) == sorted(cries + [out + '/report.txt']), 'files made: {0}', fresh)
        check(cries == ['{0}/{1}_{2:05d}_{3}.cry'.format(out, c['stem'], i, ts)
                        for i in range(len(cries))], 'files made: {0}', fresh)
        vs = [v for v in m.vars if v in cry.VARIABLES]
        for f in cries:
            q = cry.parse(f)
            zones.append((q.title, sorted((M.cyclic(tuple(q.nodes[i] for i in t)),
                                           tuple(q.data[v][k] for v in vs))
                                          for k, t in enumerate(q.face_nodes))))
            for k in range(q.nf):
                if 'RecoveryFactor' not in m.vars:
                    check(q.data['RecoveryFactor'][k] == rf, 'recovery factor {0} became {1}', rf,
                          q.data['RecoveryFactor'][k])
        idx = [m.vars.index(v) for v in vs]
        full = sorted((t, tuple(d[i] for i in idx), z) for t, d, z in full)
    check(sorted(x for z in zones for x in z[1]) == sorted((t, d) for t, d, _ in full),
          'cells or their data changed')
    # Fixed zones are kept.
    nfix = 0
    rest = list(zones)
    for zi, zn in enumerate(m.znames):
        if zn in fz:
            nfix += 1
            z = (zn, sorted((t, d) for t, d, k in full if k == zi))
            check(z in rest, 'fixed zone {0!r} is gone or changed', zn)
            rest.remove(z)
    kind, k = want
    if kind == 'n':
        check(len(zones) == k, 'strategy {0} with {1} fixed zones made {2} zones', strategy, nfix,
              len(zones))
        ss = [len(z[1]) for z in rest]
        check(not ss or max(ss) - min(ss) <= 1, 'sizes of zones {0}', ss)
    else:
        check(len(rest) <= 2 ** k, 'strategy {0} with {1} fixed zones made {2} zones', strategy, nfix,
              len(zones))
        if k == 0:
            check(len(rest) == 1, 'strategy {0} with {1} fixed zones made {2} zones', strategy, nfix,
                  len(zones))
        left = [f for zi, zn in enumerate(m.znames) if zn not in fz for f in m.zone_faces(zi)]
        if len(left) >= 2 ** k and distinct(m, left):
            ctx.cls('hierarchical count asserted')
            check(len(rest) == 2 ** k, 'strategy {0} with {1} fixed zones made {2} zones', strategy,
                  nfix, len(zones))
    ctx.nt(len(zones) > 1)


def distinct(m, fs):
    for i in range(3):
        vs = sorted(sum(m.points[n][i] for n in m.faces[f]) / 3.0 for f in fs)
        span = max(abs(v) for v in vs) or 1.0
        if any(b - a < 1e-9 * span for a, b in zip(vs, vs[1:])):
            return False
    return True


@st.composite
def case(draw):
    strategies = st.sampled_from(['n1', 'n2', 'n3', 'n5', 'n8', 'n20', 'h0', 'h1', 'h2', 'h3', 'h4'])
    odd = st.sampled_from(['n0', 'z', 'z3', 'nx', 'h', 'n', 'x1', 'h1.5', 'n-2'])
    s = draw(st.one_of(strategies, strategies, strategies, strategies, odd))
    return {'mesh': draw(M.mesh_cases(big=24, max_size=4, max_zones=8, dupnames=True, shuffle=True,
                                      variables=['RecoveryFactor', 'T', 'Hi', 'Beta', 'Zz', 'Hw'])),
            'stem': draw(st.sampled_from(['grid', 'a.b', 'w_1', 'x_12345', 'g_00001_2', 'a b'])),
            'ts': draw(st.sampled_from(['', '', '000000000000', '123456789012', '000000012000'])),
            'strategy': s, 'fix': draw(st.lists(st.integers(0, 8), max_size=3) | st.lists(st.integers(0, 8), max_size=8)),
            'unknown': draw(st.sampled_from([0] * 9 + [1])),
            'rf': draw(st.sampled_from([1.0, 0.85, 0, 2, 0.1234567890123456789])),
            'mode': draw(st.sampled_from(['cry', 'dat'])), 'made': draw(st.integers(0, 1)),
            'cli': draw(st.integers(0, 1)), 'usejson': draw(st.sampled_from([1, 1, 1, 0])),
            'json': draw(st.integers(0, 15)), 'extra': draw(st.integers(0, 5)),
            'stale': draw(st.sampled_from([0, 0, 1])),
            'override': draw(st.sampled_from(['', '', 'n2', 'h1', 'n4', 'n1']))}


def refusals(c, ctx):
    import split
    m = M.build(c['mesh'])
    os.makedirs('in')
    ext = c['ext']
    if c['present']:
        M.write_dat(m, 'in/grid' + ext)
    with open('in/p.json', 'w') as f:
        f.write('{}')
    bad = ext != '.dat' or not c['present'] or (c['cli'] and c['nojson'])
    if c['cli']:
        argv = ['in/grid' + ext, '-c', 'out', '-j', 'in/none.json' if c['nojson'] else 'in/p.json']
        call = lambda: run_script('split.py', argv)           # noqa: E731
    else:
        call = lambda: split.split('in/grid' + ext, 'out', None, 'n1')   # noqa: E731
    ctx.nt(bad)
    check(raises(call) == bad, 'extension {0!r}, present {1}, json {2}: {3}', ext, c['present'],
          not c['nojson'], 'accepted' if bad else 'refused')
    if c['cli'] and not bad:
        # One output is required, two are refused.
        check(raises(run_script, 'split.py', ['in/grid.dat']), 'no output was accepted')
        check(raises(run_script, 'split.py', ['in/grid.dat', '-c', 'o1', '-o', 'o2.dat']),
              'two outputs were accepted')
        check(not os.path.exists('o1') and not os.path.exists('o2.dat'), 'a refused call made files')


@st.composite
def refusal_case(draw):
    return {'mesh': draw(M.mesh_cases(max_size=2, max_comps=1)),
            'ext': draw(st.sampled_from(['.dat', '.dat', '.txt', '', '.DAT', '.cry'])),
            'present': draw(st.sampled_from([1, 1, 0])), 'nojson': draw(st.sampled_from([0, 0, 1])),
            'cli': draw(st.integers(0, 1))}


def json_params(c, ctx):
    import split
    with open('p.json', 'w') as f:
        json.dump(c['data'], f)
    d = c['data']
    check(split.extract_strategy_from_json('p.json') == d.get('split_strategy', 'n1'),
          'strategy from {0}', d)
    check(split.extract_recovery_factor_from_json('p.json') == d.get('recovery_factor', 1.0),
          'recovery factor from {0}', d)
    els = d.get('heating_system', {}).get('elements', [])
    check(split.extract_fixed_zones_from_json('p.json') == [e['zone'] for e in els],
          'fixed zones from {0}', d)
    for fn in (split.extract_strategy_from_json, split.extract_recovery_factor_from_json,
               split.extract_fixed_zones_from_json):
        check(raises(fn, 'none.json'), 'a missing JSON file was accepted')
    ctx.nt(len(d) > 0)


json_case = st.fixed_dictionaries({'data': st.fixed_dictionaries({}, optional={
    'split_strategy': st.sampled_from(['n3', 'h2', 'n1', '']),
    'recovery_factor': st.one_of(st.floats(0, 2), st.integers(0, 3)),
    'other': st.integers(),
    'heating_system': st.fixed_dictionaries({}, optional={
        'elements': st.lists(st.fixed_dictionaries({'zone': st.text(max_size=6)}), max_size=4),
        'kind': st.text(max_size=3)})})})


def parts():
    return [Part('split', case(), split_tool, 900,
                 rule='zones, cells, data, names and places against the contract'),
            Part('refusals', refusal_case(), refusals, 150, rule='non-trivial when refusal is due'),
            Part('json', json_case, json_params, 300, rule='non-trivial when the file sets something')]
