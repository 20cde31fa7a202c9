"""K04: the equations of motion of both generators are those of Newton and Euler."""
from . import terms as t
from .ob import ob
from .gen import *
from .mbs import Sys

GEN = {'Recursive': 'processing.generator_recursive.Generator_Recursive', 'Explicit': 'processing.generator_explicit.Generator_Explicit'}


def eom(c, kind, build):
    s = Sys(c)
    build(s)
    s.freeze()
    res = s.residual()
    g = s.generator(kind)
    g.getSystemEqns()
    check(c, s, res)


def check(c, s, res):
    w = c.w
    for j in s.joints:
        c.true('%s has an acceleration' % j.name, lift(j.qdd).e[0] in w.defs)
    M = w.syms.get('M_')
    if M is not None and len(M.dims) and M.dims[0] == M.dims[1] > 1:
        for i in range(M.dims[0]):
            for k in range(i):
                c.eq('mass matrix %d,%d symmetric' % (i, k), w_at(M, i, k), w_at(M, k, i))
    for j, x in zip(s.joints, res):
        c.eq('equation of motion of ' + j.name, x, 0)


def w_at(M, i, k):
    return result((), (1, 1), [M.e[i * M.dims[1] + k]], None)


def tree(spec, loads=None):
    """spec: (parent index or -1, kind, axis)"""
    def build(s):
        for i, (p, k, a) in enumerate(spec):
            s.joint('J%d' % i, s.bodies[p] if p >= 0 else s.world, k, a)
        if loads:
            loads(s)
    return build


ONE = [[(-1, k, a)] for k in 'RT' for a in range(3)]
TWO = [[(-1, k, a), (p, l, b)] for p in (0, -1) for k, a, l, b in (
    ('R', 0, 'R', 1), ('R', 2, 'T', 0), ('T', 1, 'R', 2), ('T', 0, 'T', 0), ('R', 1, 'R', 1))]
MORE = [[(-1, 'R', 0), (0, 'R', 1), (1, 'R', 2)], [(-1, 'T', 0), (0, 'R', 1), (1, 'T', 2)], [(-1, 'R', 2), (0, 'T', 0), (1, 'R', 2)],
        [(-1, 'R', 0), (0, 'R', 1), (0, 'T', 2)], [(-1, 'R', 0), (-1, 'T', 1), (1, 'R', 2)],
        [(-1, 'T', 0), (0, 'R', 1), (1, 'R', 2), (1, 'R', 0)], [(-1, 'R', 1), (0, 'R', 2), (0, 'R', 0), (2, 'T', 1)]]


def name(spec):
    return ' '.join('%s%s(%s)' % (k, 'xyz'[a], 'world' if p < 0 else p) for p, k, a in spec)


for kind in ('Recursive', 'Explicit'):
    for spec in ONE + TWO + MORE:
        ob('K04', GEN[kind] + '.getSystemEqns', name(spec), points=1,
           bounded='this tree of joints; any state, geometry, masses, inertia, gravity')(
            lambda c, a=(kind, spec): eom(c, a[0], tree(a[1])))
