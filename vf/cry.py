"""Strict independent parser of *.cry files."""

VARIABLES = ['X', 'Y', 'Z', 'GloId', 'T', 'Hw', 'Hi', 'HTC', 'Beta', 'MImp2', 'Vd2',
             'TauX', 'TauY', 'TauZ', 'RecoveryFactor']


class BadCry(ValueError):
    pass


class Cry:
    pass


def parse(path):
    with open(path) as f:
        lines = f.read().split('\n')
    if lines[-1] != '':
        raise BadCry('no final newline')
    lines = lines[:-1]
    k = 0

    def take():
        nonlocal k
        if k >= len(lines):
            raise BadCry('file is too short')
        k += 1
        return lines[k - 1]

    def value(key):
        s = take()
        if not s.startswith(key + '='):
            raise BadCry('{0} expected, found {1!r}'.format(key, s[:60]))
        return s[len(key) + 1:]

    def label(s):
        t = take()
        if t != s:
            raise BadCry('{0} expected, found {1!r}'.format(s, t[:60]))

    def nums(n, conv):
        xs = take().split()
        if len(xs) != n:
            raise BadCry('line {0}: {1} values expected, {2} found'.format(k, n, len(xs)))
        return [conv(x) for x in xs]

    c = Cry()
    t = value('TITLE')
    c.title = t[1:-1]
    c.variables = [x.strip().strip('"') for x in value('VARIABLES').split(',')]
    if c.variables != VARIABLES:
        raise BadCry('variables {0}'.format(c.variables))
    c.mpi = int(value('MPI'))
    c.nn = int(value('NODES'))
    c.ne = int(value('EDGES'))
    c.ncross = int(value('CROSS-EDGES'))
    c.nf = int(value('FACES'))
    label('NODES COORDINATES:')
    xyz = [nums(c.nn, float) for _ in range(3)]
    c.nodes = list(zip(*xyz)) if c.nn else []
    label('FACES DATA:')
    c.gloids = nums(c.nf, int)
    c.data = {v: nums(c.nf, float) for v in VARIABLES[4:]}
    label('FACE-NODE CONNECTIVITY LIST:')
    c.face_nodes = [tuple(nums(3, int)) for _ in range(c.nf)]
    label('FACE-EDGE CONNECTIVITY LIST:')
    c.face_edges = [tuple(nums(3, int)) for _ in range(c.nf)]
    label('EDGE-NODE CONNECTIVITY LIST:')
    c.edge_nodes = [tuple(nums(2, int)) for _ in range(c.ne)]
    c.nborders = int(value('MPI-BORDERS'))
    c.borders = []
    while k < len(lines):
        s = take().split()
        if not s or s[0][0] != '[' or s[0][-1] != ']':
            raise BadCry('border line expected')
        c.borders.append((int(s[0][1:-1]), [int(x) for x in s[1:]]))
    return c
