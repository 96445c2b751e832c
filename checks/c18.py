"""C18: droplet flights obey their step rule and end with the right diagnosis."""
import math
import random

from vf import flight as F
from vf import mesh as M
from vf.core import Part, check
from hypothesis import strategies as st

ID = 'C18'
RULE = 'Case = air cloud, obstacle, droplet; non-trivial when the path has at least three points.'
ASSUMPTIONS = ['Steps are compared while the error bound of the model stays below 1e-3 of the step.']


def V(p):
    import geom
    return geom.Vect(*p)


def xyz(v):
    return (float(v.X), float(v.Y), float(v.Z))


def make_air(c):
    """Data points of a box with a flow."""
    r = random.Random(c['seed'])
    L = c['size']
    pts = []
    n = c['n']
    if c['grid']:
        for i in range(n):
            for j in range(n):
                for k in range(n):
                    pts.append([L * i / max(n - 1, 1), L * j / max(n - 1, 1), L * k / max(n - 1, 1)])
    else:
        pts = [[r.uniform(0, L) for _ in range(3)] for _ in range(n ** 3)]
        if n > 1:
            pts[0], pts[-1] = [0.0] * 3, [L] * 3
    u = c['speed']
    out = []
    for p in pts:
        if c['flow'] == 'uniform':
            v = [u, 0.3 * u, -0.1 * u]
        elif c['flow'] == 'still':
            v = [0.0, 0.0, 0.0]
        elif c['flow'] == 'vortex':
            v = [-u * (p[1] / L - 0.5), u * (p[0] / L - 0.5), 0.1 * u]
        else:
            v = [r.uniform(-u, u) for _ in range(3)]
        out.append((p, v))
    return out


air_case = st.fixed_dictionaries({'seed': st.integers(0, 10 ** 6), 'n': st.sampled_from([2, 2, 3, 3, 3, 3, 4, 4, 4, 5, 5, 5, 1, 9]),
                                  'grid': st.integers(0, 1), 'size': st.sampled_from([1e-2, 0.1, 1.0, 10.0]),
                                  'speed': st.sampled_from([80.0, 300.0, 1.0, 0.0]),
                                  'flow': st.sampled_from(['uniform', 'uniform', 'vortex', 'random', 'still'])})


def obstacle(c, L):
    """Triangles standing in the box."""
    r = random.Random(c['seed'])
    if c['kind'] == 'surface':
        m = M.build(c['mesh'])
        lo = [min(p[i] for p in m.points) for i in range(3)]
        ext = max(max(p[i] for p in m.points) - lo[i] for i in range(3)) or 1.0
        at = [r.uniform(0, 0.6) * L for _ in range(3)]
        k = L * r.uniform(0.2, 0.8) / ext
        ps = [[at[i] + (p[i] - lo[i]) * k for i in range(3)] for p in m.points]
        return [[ps[i] for i in f] for f in m.faces]
    out = []
    for _ in range(c['n']):
        if c['kind'] == 'wall':
            x = r.uniform(0.1, 0.9) * L
            ax = r.choice([0, 0, 1, 2])
            t = [[-2 * L, -2 * L], [5 * L, -2 * L], [-2 * L, 5 * L]]
            t = [[p[0], p[1]] for p in t]
            for p in t:
                p.insert(ax, x)
        else:
            o = [r.uniform(0, L) for _ in range(3)]
            t = [[x + r.uniform(-0.3, 0.3) * L for x in o] for _ in range(3)]
        out.append(t)
    return out


obst_case = st.fixed_dictionaries({'kind': st.sampled_from(['wall', 'wall', 'loose', 'surface', 'path', 'path']),
                                   'n': st.integers(1, 8), 'seed': st.integers(0, 10 ** 6),
                                   'mesh': M.mesh_cases(max_size=3, max_comps=1, variables=[], scales=(1.0,))})


def predict(p, v, air, d, dt, n):
    """Path of the model without obstacles."""
    out = [list(p)]
    for _ in range(n):
        va = air[F.nearest(air, p)[0]][1]
        a, k = F.drag(v, va, d)
        p = [x + y * dt for x, y in zip(p, v)]
        v = [x + y * dt for x, y in zip(v, a)]
        if not all(map(math.isfinite, p + v)) or max(map(abs, p)) > 1e6:
            break
        out.append(list(p))
    return out


def across(path, c):
    """Small triangles across chords of the path: beside its steps, or across them."""
    r = random.Random(c['seed'])
    out = []
    for _ in range(c['n']):
        i = r.randrange(len(path))
        j = min(len(path) - 1, i + r.choice([1, 2, 2, 2, 3, 5]))
        if i == j:
            continue
        a, b = path[i], path[j]
        e = [y - x for x, y in zip(a, b)]
        h = math.sqrt(sum(x * x for x in e))
        x = [p + r.uniform(0.1, 0.9) * q for p, q in zip(a, e)]
        if j > i + 1:
            # Distance of the chord from the middle of the path.
            q = path[(i + j) // 2]
            g = [m - n for m, n in zip(q, a)]
            k = sum(m * n for m, n in zip(g, e)) / (h * h) if h else 0.0
            h = min(h, math.sqrt(sum((m - k * n) ** 2 for m, n in zip(g, e))))
        k = h * r.choice([0.05, 0.3, 0.3, 1.0])
        if k > 0:
            out.append([[m + k * r.uniform(-1, 1) for m in x] for _ in range(3)])
    return out


def verdict(diag, pts, tris, box, max_steps, states, dt, hit):
    """The diagnosis is the first event of the path."""
    n = len(pts)
    check(diag in ('N', 'O', 'S', 'C'), 'diagnosis {0}', diag)
    for k in range(n - 1):
        check(F.inside(box, pts[k]), 'the flight went on from point {0} outside of the box', pts[k])
        check(k + 1 <= max_steps, 'the flight went on with {0} points, the limit is {1}', k + 1, max_steps)
    last = n - 1 if diag == 'C' else n
    for k in range(last - 1):
        s = F.hits(tris, pts[k], pts[k + 1])
        check('hit' not in s, 'the flight went through a surface between {0} and {1}', pts[k], pts[k + 1])
    if diag == 'C':
        check(n >= 2, 'a crossing without a step')
        s = F.hits(tris, pts[-2], pts[-1])
        check(hit is not None and s[hit] != 'miss', 'the last step {0} - {1} does not hit the reported cell', pts[-2],
              pts[-1])
    elif diag == 'N':
        check(n > max_steps, 'stopped after {0} points, the limit is {1}', n, max_steps)
    elif diag == 'O':
        check(n <= max_steps, '{0} points, the limit is {1}', n, max_steps)
        check(not F.inside(box, pts[-1]), 'point {0} is inside the box', pts[-1])
    else:
        check(n <= max_steps, '{0} points, the limit is {1}', n, max_steps)
        check(F.inside(box, pts[-1]), 'point {0} is outside the box', pts[-1])
        if states is not None:
            check(any(math.sqrt(sum(x * x for x in v)) * dt <= 2e-15 + 4e-16 * max(map(abs, pts[-1])) + 20 * e * dt
                      for v, e in states),
                  'the droplet stands although its velocity is {0}', states[0][0])
    if diag != 'C':
        check(hit is None, 'a cell is reported for diagnosis {0}', diag)


def fly(c, ctx):
    import drops
    import geom
    air = make_air(c['air'])
    L = c['air']['size']
    p0 = [L * x for x in c['p']]
    near = F.nearest(air, p0)
    if c['vmode'] == 'air':
        v0 = list(air[near[0]][1])
    elif c['vmode'] == 'zero':
        v0 = [0.0, 0.0, 0.0]
    else:
        v0 = [c['air']['speed'] * x + 10 * y for x, y in zip(c['v'], c['v'])]
    speed = max(1.0, c['air']['speed'], math.sqrt(sum(x * x for x in v0)))
    dt = c['dt'] * L / speed
    d, ms = c['d'], c['max']
    tris = []
    if c['obst']['kind'] == 'path':
        tris = across(predict(p0, v0, air, d, dt, min(ms, 40)), c['obst'])
    tris = tris or obstacle(c['obst'], L)
    cloud_tris = []
    for k, t in enumerate(tris):
        x = geom.Triangle(*[V(p) for p in t])
        x.BackRef = ('cell', k)
        cloud_tris.append(x)
    tc = geom.TrianglesCloud(cloud_tris)
    space = drops.Space([(V(p), V(v)) for p, v in air], [tuple(p) for p, _ in air])
    check([xyz(x[0]) for x in space.Ds] == [tuple(p) for p, _ in air], 'data points differ')
    for q in ([L * x for x in c['p']], list(air[-1][0])):
        got = space.find_nearest(V(q))
        ks = F.nearest(air, q)
        check(any(got is space.Ds[k] for k in ks), 'nearest data of {0} is {1}, expected {2}', q, xyz(got[0]),
              air[ks[0]][0])
        check(bool(space.inside(V(q))) == F.inside(F.box_of(air), q), 'point {0} inside', q)
    start, v_in = V(p0), V(v0)
    diag, face, tr = space.fly(start, v_in, d, dt, tc, ms)
    pts = [xyz(p) for p in tr.Points]
    check(pts[0] == tuple(p0), 'the path starts at {0} instead of {1}', pts[0], p0)
    check(tr.points_count() == len(pts) and tr.segments_count() == len(pts) - 1 and xyz(tr.last_point()) == pts[-1],
          'counters of the path')
    check(xyz(v_in) == tuple(v0) and xyz(start) == tuple(p0), 'the flight changed its arguments')
    res = F.check_steps(pts, v0, air, d, dt)
    hit = None
    if face is not None:
        check(face[0] == 'cell', 'reported cell {0}', face)
        hit = face[1]
    verdict(diag, pts, tris, F.box_of(air), ms, res.states if res.checked == len(pts) - 1 else None, dt, hit)
    ctx.cls('end ' + diag, 'checked {0}'.format(min(res.checked, 20)))
    ctx.nt(len(pts) >= 3)


v3i = st.lists(st.integers(-10, 10).map(lambda x: x / 10), min_size=3, max_size=3)
inbox = st.lists(st.integers(2, 98).map(lambda x: x / 100), min_size=3, max_size=3)
fly_case = st.fixed_dictionaries({
    'air': air_case, 'obst': obst_case,
    'p': st.one_of(inbox, inbox, inbox, inbox, st.lists(st.floats(-0.05, 1.05), min_size=3, max_size=3)),
    'v': v3i, 'vmode': st.sampled_from(['free', 'free', 'free', 'free', 'air', 'zero']),
    'd': st.sampled_from([1e-2, 1e-3, 1e-3, 1e-4, 1e-4, 1e-5, 1e-6]),
    'dt': st.sampled_from([0.03, 0.03, 0.1, 0.01, 1e-3, 0.3, 2.0, 1e-6, 1e-9, 1e-11]),
    'max': st.sampled_from([60, 60, 60, 20, 20, 20, 5, 2, 1, 0])})


@st.composite
def long_case(draw):
    c = draw(fly_case)
    c['air'] = dict(c['air'], n=2, speed=draw(st.sampled_from([1.0, 80.0])), flow='uniform')
    c['p'], c['vmode'], c['d'] = [0.3, 0.4, 0.6], 'air', draw(st.sampled_from([1e-2, 1e-4]))
    c['obst'] = dict(c['obst'], kind='loose', n=1)
    c['dt'] = draw(st.sampled_from([1e-5, 1e-5, 1e-4]))
    c['max'] = draw(st.sampled_from([1200, 5500, 12000]))
    return c


def step(c, ctx):
    """One step: explicit rule, drag towards the air velocity, never past it for small steps."""
    import drops
    sp = drops.Space([(V([0.0, 0.0, 0.0]), V([0.0, 0.0, 0.0]))], [(0.0, 0.0, 0.0)])
    u = c['u']
    p, v, va = c['p'], [u * x for x in c['v']], [u * x for x in c['va']]
    if c['same']:
        va = list(v)
    np_, nv = sp.fly_step(V(p), V(v), V(va), c['d'], c['dt'])
    np_, nv = xyz(np_), xyz(nv)
    ctx.nt()
    check(all(abs(a - (b + w * c['dt'])) <= 1e-14 * (abs(b) + abs(w * c['dt'])) for a, b, w in zip(np_, p, v)),
          'position {0} from {1} with velocity {2}', np_, p, v)
    ok = False
    for a, _ in F.drags(v, va, c['d']):
        want = [x + y * c['dt'] for x, y in zip(v, a)]
        tol = 1e-12 * (max(map(abs, v)) + c['dt'] * max(map(abs, a))) + 1e-300
        ok = ok or all(abs(x - y) <= tol for x, y in zip(nv, want))
    check(ok, 'velocity {0} instead of {1} (from {2} in air {3})', nv, want, v, va)
    rel = math.dist(v, va)
    if rel == 0:
        check(nv == tuple(v), 'a droplet moving with the air changes its velocity')
    ctx.cls('no relative motion' if rel == 0 else 'low Re' if rel * c['d'] / F.AIR_VISCOSITY <= 350 else 'high Re')


v3 = st.lists(st.one_of(st.floats(-1, 1).map(lambda x: round(x, 8)), st.sampled_from([0.0, 1.0])), min_size=3, max_size=3)
step_case = st.fixed_dictionaries({'p': v3, 'v': v3, 'va': v3, 'u': st.sampled_from([0.1, 1.0, 30.0, 300.0]),
                                   'd': st.sampled_from([1e-6, 1e-5, 1e-4, 1e-3, 1e-2]), 'same': st.sampled_from([0, 0, 0, 1]),
                                   'dt': st.sampled_from([1e-8, 1e-6, 1e-5, 1e-3])})


def near(c, ctx):
    """Nearest data point and box, for one space and a sequence of questions."""
    import drops
    r = random.Random(c['seed'])
    L, at, n = c['size'], c['at'], c['n']
    if c['grid']:
        k = [r.randint(1, 6) for _ in range(3)]
        pts = [[at[0] + L * i, at[1] + L * j * c['flat'], at[2] + L * m] for i in range(k[0]) for j in range(k[1])
               for m in range(k[2])]
        r.shuffle(pts)
    else:
        pts = [[x + L * r.uniform(0, 1) for x in at] for _ in range(n)]
    air = [(p, [r.uniform(-9, 9) for _ in range(3)]) for p in pts]
    sp = drops.Space([(V(p), V(v)) for p, v in air], [tuple(p) for p in pts])
    box = F.box_of(air)
    for _ in range(c['ask']):
        a, b = r.choice(pts), r.choice(pts)
        w = r.choice([0.0, r.uniform(0, 1), r.uniform(0, 1), r.uniform(-0.5, 1.5)])
        q = [x + w * (y - x) + L * r.choice([0.0, 0.1, 1.0]) * r.uniform(-1, 1) for x, y in zip(a, b)]
        got = sp.find_nearest(V(q))
        ks = F.nearest(air, q)
        check(any(xyz(got[0]) == tuple(pts[k]) and xyz(got[1]) == tuple(air[k][1]) for k in ks),
              'nearest data of {0} is {1}, expected {2}', q, xyz(got[0]), pts[ks[0]])
        check(bool(sp.inside(V(q))) == F.inside(box, q), 'point {0} inside', q)
    ctx.nt(len(pts) > 1)


near_case = st.fixed_dictionaries({
    'seed': st.integers(0, 10 ** 6), 'n': st.integers(1, 60), 'grid': st.integers(0, 1), 'flat': st.integers(0, 1),
    'size': st.sampled_from([1e-6, 1e-5, 1e-3, 1.0, 50.0]), 'ask': st.integers(3, 12),
    'at': st.sampled_from([[0.0, 0.0, 0.0], [1.0, -2.0, 0.5], [100.0, 30.0, -70.0], [-5000.0, 0.0, 1.0]])})


def parts():
    return [Part('fly', fly_case, fly, 2500), Part('long', long_case(), fly, 5, rule='thousands of steps'),
            Part('step', step_case, step, 3000),
            Part('nearest', near_case, near, 600, rule='more than one data point')]
