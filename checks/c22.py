"""C22: the accreted volume approaches the planned ice volume."""
import math
import random

from vf import ice
from vf import mesh as M
from vf.core import Part, check, quiet
from vf.inv import pos
from hypothesis import strategies as st

ID = 'C22'
RULE = ('Case = smooth closed or flat iced surface and options; non-trivial when ice is present. The '
        'first-order deficit D of the discretisation is computed from the mesh alone.')
ASSUMPTIONS = ['Closed surfaces are triangulated spheres/ellipsoids of at least 80 cells, ice is thinner than 0.3 '
               'of the shortest side; no smoothing of normals.']


def surface(c):
    r = random.Random(c['seed'])
    b = c['base']
    if b == 'plate':
        m = grid_plate(c['n'], c['m'])
        amp = c['jit'] * 0.01
        m.points = [[x + r.uniform(-amp, amp), y + r.uniform(-amp, amp), 0.0] for x, y, _ in m.points]
    else:
        m = M.Mesh()
        if b == 'octa':
            ps, fs = M.BASES['sphere'](3, 3)
        else:
            ps, fs = M.icosphere(2 if b == 'ico2' else 1)
        m.points, m.faces = [list(p) for p in ps], [tuple(f) for f in fs]
    s = c['stretch'] if b != 'plate' else [1.0, 1.0, 1.0]
    mat = M.rotation(c['rot'])
    m.points = [M.apply(mat, [c['scale'] * x * k for x, k in zip(p, s)]) for p in m.points]
    n = len(m.faces)
    r.shuffle(m.faces)
    nz = c['nz']
    m.zone = [k * nz // n for k in range(n)]
    m.znames = ['z{0}'.format(i) for i in range(nz)]
    m.vars, m.title = [], 't'
    return m


def grid_plate(n, k):
    m = M.Mesh()
    m.points = [[float(i), float(j), 0.0] for j in range(k + 1) for i in range(n + 1)]
    m.faces = []
    for j in range(k):
        for i in range(n):
            a = j * (n + 1) + i
            m.faces += [(a, a + 1, a + n + 2), (a, a + n + 2, a + n + 1)]
    return m


def volume(m, opts):
    g = ice.load(m)
    nodes = ice.loaded_order(m, g)
    with quiet():
        ice.run(g, opts)
    after = [pos(x) for x in nodes]
    return ice.swept(m.points, after, m.faces), after, g


def areas(m):
    return [ice.area(*(m.points[i] for i in f)) for f in m.faces]


def balance(c, ctx):
    m = surface(c)
    ice.put_ice(m, c['ice'])
    hi, ar = m.data['Hi'], areas(m)
    plan = [a * h for a, h in zip(ar, hi)]
    total = sum(plan)
    new, dirs = ice.step_model(m.points, m.faces, hi)
    nrm = [ice.tri_normal(*(m.points[i] for i in f)) for f in m.faces]
    first = [a * sum(ice.dot(ice.sub(new[i], m.points[i]), n) for i in f) / 3
             for a, n, f in zip(ar, nrm, m.faces)]
    D = sum(abs(a - b) for a, b in zip(first, plan)) / total
    v, after, g = volume(m, c['opts'])
    err = v / total - 1
    o = c['opts']
    n, rd = o['remesh_nsteps_max'], o.get('remesh_rest_volume_redistr', True)
    R = min(c['stretch']) ** 2 / max(c['stretch']) * c['scale']     # least radius of curvature
    if c['base'] == 'plate':
        tol = 1e-7 if c['ice']['mode'] == 'uniform' else 0.15 * D + 0.02 * max(hi) / c['scale'] + 1e-7
    else:
        tol = 1.4 * (D / n if rd else D) + 0.3 * max(hi) / R / n + 2 * (max(hi) / R) ** 2 / n
    ctx.cls(c['base'], 'redistributed' if rd else 'not redistributed', 'steps {0}'.format(n),
            'heights smoothed' if o.get('remesh_hsmooth_steps') else 'heights not smoothed')
    check(abs(err) <= tol, '{0}: swept volume {1}, planned {2} (relative error {3:.5f}, allowed {4:.5f})',
          c['base'], v, total, err, tol)
    # Nothing moves inwards.
    size = max(math.dist(p, m.points[0]) for p in m.points)
    for p, q, d in zip(m.points, after, dirs):
        check(ice.dot(ice.sub(q, p), d) >= -1e-9 * size, 'a node moved inwards')
    ctx.nt()


def thickness(c, ctx):
    """The relative error of uniform ice is that of the mesh: curvature is accounted for in heights."""
    m = surface(c)
    m.vars = ['Hi']
    side = min(math.dist(m.points[f[i]], m.points[f[i - 1]]) for f in m.faces for i in range(3))
    R = min(c['stretch']) ** 2 / max(c['stretch']) * c['scale']
    err = []
    for k in (0.02, c['k']):
        m.data['Hi'] = [k * side] * len(m.faces)
        v, _, _ = volume(m, c['opts'])
        err.append(v / (k * side * sum(areas(m))) - 1)
    tol = 0.1 * (c['k'] - 0.02) * side / R
    check(abs(err[1] - err[0]) <= tol, '{0}: relative error {1:.5f} of thin ice, {2:.5f} of ice {3} as thick, '
          'difference allowed: {4:.5f}', c['base'], err[0], err[1], c['k'] / 0.02, tol)
    ctx.nt()
    ctx.cls(c['base'])


def monotone(c, ctx):
    m = surface(c)
    ice.put_ice(m, c['ice'])
    v1, _, _ = volume(m, c['opts'])
    h = list(m.data['Hi'])
    r = random.Random(c['seed'] + 1)
    if c['how'] == 'scaled':
        m.data['Hi'] = [x * c['k'] for x in h]
    else:
        # More ice in one direction of space only.
        ax = [r.gauss(0, 1) for _ in range(3)]
        m.data['Hi'] = [x + max(h) * (c['k'] - 1) * (ice.dot(ice.mid(m, f), ax) > 0)
                        for f, x in enumerate(h)]
    more = sum(a * b for a, b in zip(areas(m), m.data['Hi']))
    less = sum(a * b for a, b in zip(areas(m), h))
    v2, _, _ = volume(m, c['opts'])
    check(v2 >= v1 - 1e-9 * abs(v1), 'planned {0} -> {1}, swept {2} -> {3}', less, more, v1, v2)
    ctx.nt(more > less * 1.01)
    ctx.cls(c['how'])


def spread(c, ctx):
    """Height smoothing in one step on a regular plate conserves the swept volume exactly."""
    k = c['opts']['remesh_hsmooth_steps']
    rim = k + 2
    c = dict(c, base='plate', n=2 * rim + c['n'], m=2 * rim + c['m'], jit=0)
    m = surface(c)
    r = random.Random(c['seed'] + 5)
    s = c['scale']
    inv = M.rotation(c['rot'])
    h = 0.05 * s
    m.data['Hi'] = []
    for f in range(len(m.faces)):
        p = ice.mid(m, f)
        x, y = (sum(inv[i][j] * p[i] for i in range(3)) / s for j in (0, 1))
        inside = rim < x < c['n'] - rim and rim < y < c['m'] - rim
        m.data['Hi'].append(h * r.random() if inside and r.random() < 0.7 else 0.0)
    m.vars = ['Hi']
    wet = [f for f, x in enumerate(m.data['Hi']) if x > 0]
    plan = sum(a * b for a, b in zip(areas(m), m.data['Hi']))
    v, after, g = volume(m, c['opts'])
    check(abs(v - plan) <= 1e-9 * plan + 1e-12 * s ** 3, 'swept {0}, planned {1}', v, plan)
    # Ice spreads by one ring of neighbours per pass only.
    near = set(wet)
    es = m.edges()
    for _ in range(k):
        near |= {f for fs in es.values() if any(x in near for x in fs) for f in fs}
    touched = {i for f in near for i in m.faces[f]}
    for i, (p, q) in enumerate(zip(m.points, after)):
        if i not in touched:
            check(math.dist(p, q) <= 1e-12 * s, 'ice was moved further than to neighbours')
    check(all(ice.dot(ice.sub(q, p), ice.tri_normal(*(m.points[i] for i in m.faces[0]))) >= -1e-12 * s
              for p, q in zip(m.points, after)), 'a node moved inwards')
    ctx.nt(bool(wet) and k > 0)
    ctx.cls('passes {0}'.format(k))


def rough(c, ctx):
    """Cells that got more than planned are never asked to give ice back."""
    m = surface(c)
    ice.put_ice(m, c['ice'])
    v, after, g = volume(m, c['opts'])
    _, dirs = ice.step_model(m.points, m.faces, m.data['Hi'])
    size = max(math.dist(p, m.points[0]) for p in m.points)
    for p, q, d in zip(m.points, after, dirs):
        check(ice.dot(ice.sub(q, p), d) >= -1e-9 * size, 'a node moved inwards by {0}',
              -ice.dot(ice.sub(q, p), d))
    plan = sum(a * b for a, b in zip(areas(m), m.data['Hi']))
    check(0 <= v <= 2.5 * plan + 1e-12 * size ** 3, 'swept {0}, planned {1}', v, plan)
    ctx.nt(plan > 0 and c['opts']['remesh_nsteps_max'] > 1)
    ctx.cls(c['ice']['mode'])


@st.composite
def base(draw, modes, amp=(0.02, 0.1, 0.3)):
    # The stretch stays near 1: curvature must be resolved by the coarsest meshes.
    b = draw(st.sampled_from(['plate', 'ico1', 'ico2', 'octa']))
    flat = st.sampled_from([[1.0, 1.0, 1.0], [1.2, 1.0, 0.9], [0.85, 1.0, 1.0]])
    return {'base': b, 'n': draw(st.integers(3, 8)), 'm': draw(st.integers(3, 8)),
            'jit': draw(st.sampled_from([0, 10])), 'seed': draw(st.integers(0, 999)),
            'stretch': draw(flat), 'rot': draw(st.sampled_from([0, 3, 4])),
            'scale': draw(st.sampled_from([1.0, 20.0, 0.3])), 'nz': draw(st.integers(1, 3)),
            'ice': draw(ice.ice(modes=modes, amp=amp))}


@st.composite
def case_balance(draw):
    c = draw(base(['uniform', 'linear']))
    c['opts'] = draw(ice.options(nsteps=[1, 2, 3, 5, 8], nss=False, many=False, nsmooth=False))
    if c['base'] == 'ico2' and c['opts']['remesh_nsteps_max'] > 3:
        c['base'] = 'ico1'
    return c


@st.composite
def case_thick(draw):
    c = draw(base(['uniform']))
    if c['base'] == 'plate':
        c['base'] = 'octa'
    c['opts'] = {'remesh_nsteps_min': 1, 'remesh_nsteps_max': 1,
                 'remesh_rest_volume_redistr': draw(st.booleans())}
    c['k'] = draw(st.sampled_from([0.1, 0.2, 0.3]))
    return c


@st.composite
def case_mono(draw):
    c = draw(base(['uniform', 'linear', 'patch'], amp=(0.02, 0.1)))
    if c['base'] == 'ico2':
        c['base'] = 'ico1'
    c['opts'] = draw(ice.options(nsteps=[1, 2, 4], nss=False, many=False, nsmooth=False))
    c['how'] = draw(st.sampled_from(['scaled', 'side']))
    c['k'] = draw(st.sampled_from([1.1, 1.5, 2.0]))
    return c


@st.composite
def case_rough(draw):
    c = draw(base(['few', 'random', 'patch'], amp=(0.02, 0.1)))
    if c['base'] == 'ico2':
        c['base'] = 'plate'
    c['opts'] = draw(ice.options(nsteps=[2, 3, 5], nss=False, many=False))
    return c


@st.composite
def case_spread(draw):
    c = draw(base(['uniform']))
    c['n'], c['m'] = draw(st.integers(2, 5)), draw(st.integers(2, 5))
    c['opts'] = {'remesh_nsteps_min': 1, 'remesh_nsteps_max': 1,
                 'remesh_hsmooth_steps': draw(st.integers(0, 3)),
                 'remesh_hsmooth_alfa': draw(st.sampled_from([0.1, 0.2, 1.0])),
                 'remesh_hsmooth_beta': draw(st.sampled_from([0.05, 0.1, 0.3])),
                 'remesh_rest_volume_redistr': draw(st.booleans())}
    return c


def parts():
    return [Part('balance', case_balance(), balance, 200, rule='always'),
            Part('thickness', case_thick(), thickness, 40, rule='always'),
            Part('more ice', case_mono(), monotone, 100, rule='at least 1 % more ice'),
            Part('rough', case_rough(), rough, 100, rule='ice and several steps'),
            Part('spread', case_spread(), spread, 100, rule='ice and a smoothing pass')]
