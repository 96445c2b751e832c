"""Helpers shared by the checks: loading a model mesh into the code under test, snapshots."""
from . import mesh as M
from .inv import corners, pos


def load(m, merge=True, name='in.dat', **kw):
    import gsu
    M.write_dat(m, name, **kw)
    g = gsu.Grid()
    g.load(name, is_merge_same_nodes=bool(merge))
    return g


def snapshot(g, data=True):
    """Everything but zones, by identity and by value."""
    return ([(id(n), n.GloId, pos(n)) for n in g.Nodes],
            [(id(e), e.GloId, tuple(sorted(id(n) for n in e.Nodes))) for e in g.Edges],
            [(id(f), f.GloId, tuple(id(n) for n in f.Nodes), tuple(sorted(id(e) for e in f.Edges)),
              dict(f.Data) if data else None) for f in g.Faces])


def raises(fn, *a, **kw):
    """True when the call raises an ordinary exception."""
    try:
        fn(*a, **kw)
    except Exception:                                         # noqa: BLE001
        return True
    except SystemExit:
        return True
    return False


def zones_by_cells(g):
    """[(name, frozenset of cell identities)] in zone order."""
    return [(z.Name, frozenset(id(f) for f in z.Faces)) for z in g.Zones]


def tri_key(f):
    return M.cyclic(corners(f))


def run_script(rel, argv):
    """Run a script of the tree as __main__ in this process, like the command line does."""
    import contextlib
    import io
    import os
    import runpy
    import sys

    from . import env
    path = os.path.join(env.CODE, rel)
    old = sys.argv
    sys.argv = [path] + [str(a) for a in argv]
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            return runpy.run_path(path, run_name='__main__')
    finally:
        sys.argv = old


def listing(d='.'):
    """{relative file name: bytes} of a directory tree."""
    import os
    out = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, d)] = h.read()
    return out
