"""Iced grids, remeshing runs and independent geometry for the remeshing checks."""
import json
import math
import random

from . import mesh as M
from .inv import pos
from .util import load
from hypothesis import strategies as st

DEFAULTS = {'export_stl': False, 'remesh_verbose': False, 'remesh_nsteps_min': 0,
            'remesh_nsteps_max': 10, 'remesh_nsteps_hi_side_fact': 0.1,
            'remesh_nsteps_ignore_part': 0.05, 'remesh_nsmooth_steps': 0, 'remesh_nsmooth_s': 10.0,
            'remesh_nsmooth_k': 0.15, 'remesh_hsmooth_steps': 0, 'remesh_hsmooth_alfa': 0.2,
            'remesh_hsmooth_beta': 0.1, 'remesh_rest_volume_redistr': True, 'remesh_nss_steps': 0,
            'remesh_nss_epsilon': 0.01, 'remesh_nss_st': 0.2, 'remesh_nss_fix_nodes': True,
            'remesh_pseudo_2d_oz': False}
BASES = ['plate', 'tube', 'torus', 'tetra', 'octa', 'sphere', 'fan', 'strip']


@st.composite
def options(draw, nsteps=None, nss=True, hsmooth=True, nsmooth=True, redistr=True, some=True, many=True):
    """A parameter file; options may be absent."""
    o = {}
    if nsteps is None:
        lo = draw(st.integers(0, 4))
        o['remesh_nsteps_min'] = lo
        o['remesh_nsteps_max'] = lo + draw(st.integers(0, 3))
    else:
        o['remesh_nsteps_min'] = o['remesh_nsteps_max'] = draw(st.sampled_from(nsteps))
    if some:
        if draw(st.booleans()):
            o['remesh_nsteps_hi_side_fact'] = draw(st.sampled_from([0.05, 0.1, 0.5, 2.0]))
        if draw(st.booleans()):
            o['remesh_nsteps_ignore_part'] = draw(st.sampled_from([0.0, 0.05, 0.3, 0.9]))
    if nsmooth and draw(st.booleans()):
        o['remesh_nsmooth_steps'] = draw(st.integers(0, 3) | st.sampled_from([3, 7, 12] if many else [3]))
        o['remesh_nsmooth_s'] = draw(st.sampled_from([1.0, 10.0, 30.0]))
        o['remesh_nsmooth_k'] = draw(st.sampled_from([0.05, 0.15, 1.0]))
    if hsmooth and draw(st.booleans()):
        o['remesh_hsmooth_steps'] = draw(st.integers(0, 3) | st.sampled_from([3, 7, 12] if many else [3]))
        o['remesh_hsmooth_alfa'] = draw(st.sampled_from([0.1, 0.2, 1.0]))
        o['remesh_hsmooth_beta'] = draw(st.sampled_from([0.05, 0.1, 0.3]))
    if redistr and draw(st.booleans()):
        o['remesh_rest_volume_redistr'] = draw(st.booleans())
    if nss and draw(st.booleans()):
        o['remesh_nss_steps'] = draw(st.integers(0, 2))
        o['remesh_nss_epsilon'] = draw(st.sampled_from([0.003, 0.01, 0.1]))
        o['remesh_nss_st'] = draw(st.sampled_from([0.05, 0.2, 0.5, 0.9]))
        o['remesh_nss_fix_nodes'] = draw(st.booleans())
        if not o['remesh_nss_fix_nodes']:
            # Long steps of free borders collapse small plates into a point.
            o['remesh_nss_st'] = min(o['remesh_nss_st'], 0.2)
    return o


@st.composite
def ice(draw, modes=('zero', 'uniform', 'random', 'patch', 'linear', 'few'), amp=(0.01, 0.05, 0.15)):
    return {'mode': draw(st.sampled_from(list(modes))), 'amp': draw(st.sampled_from(list(amp))),
            'seed': draw(st.integers(0, 999))}


def side(m):
    return min(math.dist(m.points[f[i]], m.points[f[i - 1]]) for f in m.faces for i in range(3))


def mid(m, f):
    return [sum(m.points[i][k] for i in m.faces[f]) / 3 for k in range(3)]


def heights(m, c):
    """Ice height of every cell."""
    r, n = random.Random(c['seed']), len(m.faces)
    h = c['amp'] * side(m)
    if c['mode'] == 'zero':
        return [0.0] * n
    if c['mode'] == 'uniform':
        return [h] * n
    if c['mode'] == 'random':
        return [h * r.random() for _ in range(n)]
    if c['mode'] == 'few':
        return [h if r.random() < 0.2 else 0.0 for _ in range(n)]
    if c['mode'] == 'specks':
        # From visible to negligible.
        return [h * 10 ** r.uniform(-8, 0) if r.random() < 0.8 else 0.0 for _ in range(n)]
    ax = [r.gauss(0, 1) for _ in range(3)]
    s = [sum(a * x for a, x in zip(ax, mid(m, f))) for f in range(n)]
    lo, hi = min(s), max(s)
    t = [(x - lo) / (hi - lo) if hi > lo else 0.5 for x in s]
    if c['mode'] == 'patch':
        return [h if x > 0.6 else 0.0 for x in t]
    return [h * (0.2 + 0.8 * x) for x in t]


def put_ice(m, c):
    if 'Hi' not in m.vars:
        m.vars.append('Hi')
    m.data['Hi'] = heights(m, c)


@st.composite
def cases(draw, bases=None, **kw):
    kw = dict({'variables': [v for v in M.DATA_VARS if v != 'Hi'], 'max_size': 4, 'max_comps': 2, 'max_zones': 3, 'data': ('plain',),
               'scales': (1.0, 30.0, 0.25, 1e-3)}, **kw)
    c = draw(M.mesh_cases(bases=bases or BASES, **kw))
    for x in c['comps']:
        # Tubes and tori of three or four sides are too sharp.
        if x[0] in ('tube', 'torus'):
            x[1] += 3
        if x[0] == 'torus':
            x[2] += 3
    return c


def run(g, opts, outdir='./', name='m.dat', verbose=False):
    """Remesh with a parameter file holding the options (None: no file)."""
    from remeshing import TongRemesher
    path = None
    if opts is not None:
        path = 'params.json'
        with open(path, 'w') as f:
            json.dump(opts, f)
    TongRemesher(name, path, outdir, verbose=verbose)(g)


def remeshed(m, opts, **kw):
    g = load(m)
    run(g, opts, **kw)
    return g


def loaded_order(m, g):
    """Nodes of the grid in the order of the model's points (by their positions before a run)."""
    d = {tuple(pos(n)): n for n in g.Nodes}
    return [d.get(tuple(p)) for p in m.points]


# ---------------------------------------------------------------------------------- plain geometry

def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def mul(a, k):
    return [x * k for x in a]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def norm(a):
    return math.sqrt(dot(a, a))


def unit(a):
    return mul(a, 1 / norm(a))


def tri_normal(a, b, c):
    return unit(cross(sub(b, a), sub(c, a)))


def area(a, b, c):
    return 0.5 * norm(cross(sub(b, a), sub(c, a)))


def enclosed(points, faces):
    """Signed volume of a closed oriented surface."""
    o = points[0]
    return sum(dot(sub(points[f[0]], o), cross(sub(points[f[1]], o), sub(points[f[2]], o)))
               for f in faces) / 6


def swept(before, after, faces):
    """Signed volume between two positions of an oriented surface (walls along borders added)."""
    n = len(before)
    pts = list(before) + list(after)
    fs = [tuple(i + n for i in f) for f in faces] + [tuple(reversed(f)) for f in faces]
    dirs = {}
    for f in faces:
        for i in range(3):
            dirs[(f[i], f[(i + 1) % 3])] = 1
    for a, b in dirs:
        if (b, a) not in dirs:
            # Outer wall of border edge a -> b: a, b, b', a'.
            fs += [(a, b, b + n), (a, b + n, a + n)]
    return enclosed(pts, fs)


def node_dirs(points, faces):
    nrm = [tri_normal(*(points[i] for i in f)) for f in faces]
    inc = [[] for _ in points]
    for k, f in enumerate(faces):
        for i in f:
            inc[i].append(k)
    sums = [[sum(nrm[k][j] for k in ks) for j in range(3)] for ks in inc]
    return nrm, inc, [unit(s) if norm(s) > 1e-6 else [0.0, 0.0, 0.0] for s in sums]


def smooth(points, faces, least=0.25):
    """The direction of every node is well on the outer side of all cells around it."""
    nrm, _, dirs = node_dirs(points, faces)
    return all(dot(dirs[i], nrm[k]) >= least for k, f in enumerate(faces) for i in f)


def step_model(points, faces, hi):
    """One remeshing step without smoothing: nodes' new positions.

    Node direction: normalised sum of unit normals of its cells.  Cell height h: area*h + b*h^2 =
    area*Hi for the frustum between the cell and its copy moved along the node directions to the
    height h (cubic term dropped); node height: mean over its cells.
    """
    nrm, inc, dirs = node_dirs(points, faces)
    hs = []
    for k, f in enumerate(faces):
        a, b, c = (points[i] for i in f)
        ar = area(a, b, c)
        v = ar * hi[k]
        us = [mul(dirs[i], 1 / dot(dirs[i], nrm[k])) for i in f]
        v21, v31, u21, u31 = sub(b, a), sub(c, a), sub(us[1], us[0]), sub(us[2], us[0])
        q = 0.25 * dot(add(cross(v21, u31), cross(u21, v31)), nrm[k])
        d = ar * ar + 4 * q * v
        # Smaller non-negative root in the stable form.
        hs.append(2 * v / (ar + math.sqrt(d)) if d >= 0 and v > 0 else v / ar)
    return [add(p, mul(dirs[i], sum(hs[k] for k in inc[i]) / len(inc[i])))
            for i, p in enumerate(points)], dirs
