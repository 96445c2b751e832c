"""C31: physical laws interpolate and fit their tables."""
import math

from vf import env  # noqa: F401
from vf.core import Part, check, close
from hypothesis import strategies as st

ID = 'C31'
RULE = 'Case = generated table and query points.'
ASSUMPTIONS = ['Neighbouring table arguments differ by at least 1e-3; queries lie inside the table.']


@st.composite
def table(draw, lo=2, hi=12):
    n = draw(st.integers(lo, hi))
    x = [draw(st.floats(-500, 500))]
    for _ in range(n - 1):
        x.append(x[-1] + draw(st.sampled_from([1e-3, 0.1, 1.0, 5.0, 33.3, 250.0])))
    y = [draw(st.one_of(st.floats(-1e6, 1e6), st.integers(-5, 5).map(float))) for _ in x]
    return {'x': x, 'y': y}


def ref(t, q):
    xs, ys = t['x'], t['y']
    for i in range(len(xs) - 1):
        if xs[i] <= q <= xs[i + 1]:
            w = (q - xs[i]) / (xs[i + 1] - xs[i])
            return ys[i] * (1 - w) + ys[i + 1] * w
    raise AssertionError


def linear(c, ctx):
    import numpy as np
    from phys import laws
    t = c['t']
    keep = (list(t['x']), list(t['y']))
    law = laws.LinearLaw(t)
    scale = max(abs(y) for y in t['y']) + 1e-300
    for x, y in zip(*keep):
        check(abs(float(law(x)) - y) <= 1e-9 * scale, 'law({0}) = {1}, table has {2}', x, law(x), y)
    qs = [keep[0][0] + w * (keep[0][-1] - keep[0][0]) for w in c['w']]
    qs = [min(max(q, keep[0][0]), keep[0][-1]) for q in qs]
    for q in qs:
        check(abs(float(law(q)) - ref(t, q)) <= 1e-7 * scale, 'law({0}) = {1}, interpolation gives {2}',
              q, float(law(q)), ref(t, q))
    a = law(np.array(qs + keep[0]))
    check(np.shape(a) == (len(qs) + len(keep[0]),), 'array of shape {0}', np.shape(a))
    check(all(float(u) == float(law(q)) or close(float(u), float(law(q)), 1e-12, 1e-12 * scale)
              for u, q in zip(a, qs + keep[0])), 'array result differs from scalar results')
    m = law(np.array([[qs[0], qs[-1]], [keep[0][0], keep[0][-1]]]))
    check(np.shape(m) == (2, 2), 'matrix of shape {0}', np.shape(m))
    check((t['x'], t['y']) == keep, 'the table changed')
    ctx.nt(len(keep[0]) > 2)


def const(c, ctx):
    import numpy as np
    from phys import laws
    law = laws.ConstLaw(c['y'])
    for q in c['q']:
        check(law(q) == c['y'], 'constant law({0}) = {1}', q, law(q))
    check(bool(np.all(np.asarray(law(np.array(c['q']))) == c['y'])), 'constant law of an array')
    ctx.nt()


def value(k, cs, x):
    return sum(a * x ** p for a, p in zip(cs, range(k, -1, -1)))


def own_cubic(x, a, b, c, d):
    return ((a * x + b) * x + c) * x + d


def own_quadro(x, a, b, c, d, e):
    return (((a * x + b) * x + c) * x + d) * x + e


def fit(c, ctx):
    import numpy as np
    from phys import laws
    k = c['degree']
    func = getattr(laws, '_cubic', own_cubic) if k == 3 else getattr(laws, '_quadro', own_quadro)
    cs = c['coefs'][:k + 1]
    xs = [c['x0'] + i * c['dx'] for i in range(k + 1 + c['extra'])]
    ys = [value(k, cs, x) for x in xs]
    law = laws.FuncLaw({'x': xs, 'y': ys}, func)
    scale = max(abs(y) for y in ys) + sum(abs(a) for a in cs) + 1e-9
    for x, y in zip(xs, ys):
        check(abs(float(law(x)) - y) <= 1e-5 * scale, 'exact data: law({0}) = {1}, data {2}', x,
              float(law(x)), y)
    mid = [(a + b) / 2 for a, b in zip(xs, xs[1:])]
    for x in mid:
        check(abs(float(law(x)) - value(k, cs, x)) <= 1e-4 * scale,
              'exact data: law({0}) = {1}, function {2}', x, float(law(x)), value(k, cs, x))
    a = law(np.array(mid))
    check(all(close(float(u), float(law(x)), 1e-9, 1e-9 * scale) for u, x in zip(a, mid)),
          'array result differs from scalar results')
    # Disturbed data: least squares is not improved by nearby parameters.
    noise = [c['noise'][i % len(c['noise'])] for i in range(len(xs))]
    zs = [y + d for y, d in zip(ys, noise)]
    law = laws.FuncLaw({'x': xs, 'y': zs}, func)

    def loss(f):
        return math.fsum((f(x) - z) ** 2 for x, z in zip(xs, zs))
    scale += max(map(abs, noise))
    here = loss(lambda x: float(law(x)))
    best = np.polyfit(xs, zs, k)
    ref_loss = loss(lambda x: float(np.polyval(best, x)))
    check(here <= ref_loss * (1 + 1e-4) + 1e-6 * scale ** 2, 'sum of squares {0}, possible {1}', here,
          ref_loss)
    ctx.nt(any(noise) and c['extra'] > 0)


fit_case = st.fixed_dictionaries({
    'degree': st.sampled_from([3, 4]), 'coefs': st.lists(st.floats(-3, 3), min_size=5, max_size=5),
    'x0': st.sampled_from([-3.0, -1.0, 0.0, -2.2]), 'dx': st.sampled_from([0.3, 0.5, 1.0]),
    'extra': st.integers(1, 6), 'noise': st.lists(st.floats(-2, 2), min_size=1, max_size=5)})


KCAL = 4186.8


def air_heat(t):
    """Polynomial of Moran and Shapiro for the capacity of air."""
    k = t + 273.15
    return 287.05 * (3.653 - 1.337e-3 * k + 3.294e-6 * k ** 2 - 1.913e-9 * k ** 3 + 0.2763e-12 * k ** 4)


# Words of the table name, published correlation, relative tolerance (of the largest value), direction.
PHYSICS = [
    (('viscosity',), lambda t: 2.414e-5 * 10 ** (247.8 / (t + 133.15)), 0.03, -1),
    (('water', 'capacity'), lambda t: 4175 + 1.75e-2 * (42 - t) ** 2 + 2.0 * max(-t, 0), 0.015, -1),
    (('ice', 'capacity'), lambda t: KCAL * (0.5057 + 0.001863 * t), 0.01, 1),
    (('air', 'capacity'), air_heat, 0.02, 0),
    (('vaporization',), lambda t: 2260 * max((374.15 - t) / 274.15, 0) ** 0.38, 0.035, -1),
    (('sublimation',), lambda t: 2838e3, 0.04, -1)]


def tables(c, ctx):
    from phys import laws
    import numpy as np
    ts = {k: v for k, v in vars(laws).items() if isinstance(v, dict) and set(v) == {'x', 'y'}}
    for name, t in ts.items():
        check(len(t['x']) == len(t['y']) >= 2, 'table {0} has {1} arguments, {2} values', name,
              len(t['x']), len(t['y']))
        check(all(a < b for a, b in zip(t['x'], t['x'][1:])), 'arguments of {0} do not increase', name)
        law = laws.LinearLaw(t)
        check(np.allclose(law(np.array(t['x'])), t['y'], rtol=1e-12), 'law of {0}', name)
        q = [t['x'][0] + w * (t['x'][-1] - t['x'][0]) for w in c['w']]
        check(np.allclose(law(np.array(q)), np.interp(q, t['x'], t['y']), rtol=1e-9), 'law of {0}', name)
        for words, corr, tol, way in PHYSICS:
            if all(w in name for w in words):
                top = max(t['y'])
                for x in t['x']:
                    y = float(law(x))
                    check(abs(y - corr(x)) <= tol * top, '{0} at {1} is {2}, published correlation gives {3}',
                          name, x, y, corr(x))
                check(all((b - a) * way >= 0 for a, b in zip(t['y'], t['y'][1:])),
                      '{0} is not monotonic', name)
                ctx.cls(*words)
    for word, value in (('KilocalorieDjoules', 4186.8), ('DjouleKilocalories', 1 / 4186.8),
                        ('StefanBoltzmannConstant', 5.670374419e-8)):
        for k, v in vars(laws).items():
            if k.strip('_') == word:
                check(close(v, value, 1e-6, 0), '{0} is {1}', k, v)
    ctx.nt()


def parts():
    w = st.lists(st.floats(0, 1), min_size=1, max_size=8)
    return [Part('linear', st.fixed_dictionaries({'t': table(), 'w': w}), linear, 1500),
            Part('const', st.fixed_dictionaries({
                'y': st.floats(-1e9, 1e9), 'q': st.lists(st.floats(-1e9, 1e9), min_size=1, max_size=5)}),
                const, 200),
            Part('fit', fit_case, fit, 300, rule='non-trivial with disturbed, over-determined data'),
            Part('tables', st.fixed_dictionaries({'w': w}), tables, 100)]
