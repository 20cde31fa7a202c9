"""K01: rotation matrices, skew matrices, joint coordinates and the kinematic recursion."""
import math
from . import terms as t, shim
from .ob import ob
from .gen import *

AX = {0: (1, 'x', 'X', 'Rx'), 1: (2, 'y', 'Y', 'Ry'), 2: (3, 'z', 'Z', 'Rz')}
E3 = lambda i: CMatrix([int(i == k) for k in range(3)])
I3 = CMatrix([[int(i == j) for j in range(3)] for i in range(3)])


@ob('K01', 'common.functions.rot_mat', 'transpose of the positive rotation about the axis; orthogonal; determinant 1')
def _(c):
    from pymbs.common.functions import rot_mat
    a = S('a')
    for i, names in AX.items():
        for n in names:
            R = rot_mat(a, n)
            c.eq('R(%s)' % n, T(R), elem(i, t.atom('a')))
            c.eq('R R^T(%s)' % n, mm(R, T(R)), I3)
            c.eq('det(%s)' % n, det(R), 1)
            c.eq('axis(%s)' % n, mm(R, E3(i)), E3(i))
    for bad in (0, 4, 'w', ''):
        c.raises('refuses axis %r' % (bad,), ValueError, rot_mat, a, bad)


@ob('K01', 'common.functions.rot_mat', 'numeric angles (exact multiples of a quarter turn)')
def _(c):
    from pymbs.common.functions import rot_mat
    for i, names in AX.items():
        for k, (co, si) in {0: (1, 0), 1: (0, 1), 2: (-1, 0), -1: (0, -1), -2: (-1, 0)}.items():
            R = rot_mat(k * math.pi / 2, names[0])
            a, b = (i + 1) % 3, (i + 2) % 3
            want = {(i, i): 1, (a, a): co, (b, b): co, (a, b): si, (b, a): -si}
            for p in range(3):
                for q in range(3):
                    v = t.Real(None).val(lift(R).at(p, q))
                    c.true('R(%s, %d/2 pi)[%d,%d]' % (names[0], k, p, q), abs(v - want.get((p, q), 0)) < 1e-12)


@ob('K01', 'common.functions.skew', 'skew(v) w = v x w; skew-symmetric')
def _(c):
    from pymbs.common.functions import skew
    from pymbs.symbolics import Graph
    u, v = V('u'), V('v')
    s = Graph().addVariable('s', (3,))
    for n, x in (('matrix', u), ('variable', s), ('expression', s + u)):
        c.eq('skew(%s) w' % n, mm(skew(x), v), cross(x, v))
        c.eq('skew(%s) + transpose' % n, skew(x) + T(skew(x)), CZeros((3, 3)))
    c.raises('refuses a number', TypeError, skew, 1)


@ob('K01', 'common.functions.skew_numpy', 'numeric skew matrix')
def _(c):
    import numpy as np
    from pymbs.common.functions import skew_numpy
    for v, w in (((1, 2, 3), (5, -7, 11)), ((-3, 0.5, 2), (1, 4, -2))):
        m = skew_numpy(np.matrix(v).T) * np.matrix(w).T
        c.true('skew_numpy(%s) %s' % (v, w), np.allclose(np.asarray(m).ravel(), np.cross(v, w)))


@ob('K01', 'common.functions.{diag,symmetric_matrix,norm,transpose,block_matrix,block_vector}', 'entries')
def _(c):
    import pymbs.common.functions as F
    a, b, d = S('a'), S('b'), S('d')
    for n, x in (('list', [a, b, d]), ('vector', CMatrix([a, b, d]))):
        c.eq('diag(%s)' % n, F.diag(x), CMatrix([[a, 0, 0], [0, b, 0], [0, 0, d]]))
    xx, xy, yy, xz, yz, zz = [S('i' + k) for k in ('xx', 'xy', 'yy', 'xz', 'yz', 'zz')]
    m = F.symmetric_matrix([xx, xy, yy, xz, yz, zz])
    c.eq('symmetric_matrix', m, CMatrix([[xx, xy, xz], [xy, yy, yz], [xz, yz, zz]]))
    v = V('v')
    c.eq('norm^2', lift(F.norm(v)) ** 2, dot(v, v))
    c.eq('norm(zeros)', F.norm(CZeros((3,))), 0)
    A, B, C, E = Mat('A', 2, 3), Mat('B', 2, 2), Mat('C', 1, 3), Mat('E', 1, 2)
    c.eq('transpose', F.transpose(A), T(A))
    m = F.block_matrix([[A, B], [C, E]])
    want = CMatrix([[A.at(i, j) for j in range(3)] + [B.at(i, j) for j in range(2)] for i in range(2)] +
                   [list(C.e) + list(E.e)])
    c.eq('block_matrix', m, want)
    c.eq('block_vector', F.block_vector([V('p'), CMatrix([a, b])]), CMatrix(V('p').e + a.e + b.e))


@ob('K01', 'common.functions.{sin,asin,cos,acos,tan,atan,atan2,sqrt,outer,solve,element,scalar}',
    'the function they name, for numbers and for expressions')
def _(c):
    import pymbs.common.functions as F
    x = S('x')
    for n in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan'):
        f = getattr(F, n)
        c.eq(n + '(x)', f(x), lift(t.fn(n, x.e[0])))
        c.true(n + '(0.3)', abs(f(0.3) - getattr(math, n)(0.3)) < 1e-15)
    c.eq('atan2(y,x)', F.atan2(S('y'), x), lift(t.fn('atan2', t.atom('y'), x.e[0])))
    c.true('atan2(0.3,-2)', abs(F.atan2(0.3, -2) - math.atan2(0.3, -2)) < 1e-15)
    c.eq('sqrt', lift(F.sqrt(x)) ** 2, x)
    c.eq('outer', F.outer(V('u'), V('v')), mm(CMatrix([[a] for a in V('u').e]), CMatrix([V('v').e])))
    c.eq('element', F.element(Mat('A'), 1, 2), Mat('A').at(1, 2))


def sids(c, R, what):
    c.eq(what + ' orthogonal', mm(R, T(R)), I3)
    c.eq(what + ' determinant', det(R), 1)


@ob('K01', 'processing.joint.Joint.__init__', 'revolute: R(q) is the rotation about Phi by q, dR/dt = skew(Phi) R qd')
def _(c):
    from pymbs.processing import Joint
    j = mkjoint(c, CZeros((3,)), unit('n'))
    n = unit('n')
    sids(c, j.R, 'R')
    c.eq('axis', mm(j.R, n), n)
    c.eq('dR/dt', D(j.R), mm(tilde(n) * j.qd, j.R))
    v, (co, si) = V('v'), [lift(t.fn(k, lift(j.q).e[0])) for k in ('cos', 'sin')]
    c.eq('Rodrigues', mm(j.R, v), v * co + cross(n, v) * si + n * (dot(n, v) * (1 - co)))
    c.eq('Phi', j.Phi, n)
    c.eq('Psi', j.Psi, CZeros((3,)))


@ob('K01', 'processing.joint.Joint.__init__', 'prismatic: no rotation, own coordinates; fixed: no coordinates')
def _(c):
    j = mkjoint(c, unit('n'), CZeros((3,)))
    c.eq('R', j.R, I3)
    c.true('coordinates are free variables', len({j.q.e[0], j.qd.e[0], j.qdd.e[0]}) == 3
           and not any(x.e[0] in c.w.defs for x in (j.q, j.qd, j.qdd)))
    j = mkjoint(c, CZeros((3,)), CZeros((3,)), 'f')
    c.eq('R fixed', j.R, I3)


@ob('K01', 'processing.joint.Joint.__init__', 'screw joints are refused or have no motion')
def _(c):
    j = mkjoint(c, unit('m'), unit('n'))
    c.true('q', isinstance(j.q, int) and j.q == 0)
    c.eq('R', j.R, I3)


def mkjoint(c, Psi, Phi, name='j', parent=None):
    from pymbs.processing import Joint, Body, Frame
    from pymbs.symbolics import Graph
    g = c.g = getattr(c, 'g', None) or Graph()
    p = parent or Body('P' + name, graph=g).CS_0
    b = Body('B' + name, S('m_' + name), V('c_' + name), Sym('I_' + name), g)
    j = Joint(name, p, b, Psi, Phi, 0, 0, g)
    p.joints.append(j)
    b.joint = j
    if isinstance(j.q, CSymbol):
        w = c.w
        w.rates[j.q.e[0]] = j.qd.e[0]
        w.rates[j.qd.e[0]] = j.qdd.e[0]
    return j


def recursive(c, inertial, bodies, **kw):
    from pymbs.processing.generator_recursive import Generator_Recursive
    g = object.__new__(Generator_Recursive)
    g.graph, g.inertial, g.bodies, g.kinematicsOnly = c.g, inertial, bodies, False
    g.g = V('g')
    g.__dict__.update(kw)
    return g


def generic_parent(c, nanc):
    """a parent body satisfying the contract of the recursion: position, orientation and their rates are
    arbitrary, nanc moving joints between it and the inertial frame"""
    from pymbs.processing import Body
    from pymbs.symbolics import Graph
    c.g = Graph()
    w = c.w
    inertial = Body('world', graph=c.g)
    inertial._alpha_C = -1 * V('g')
    chain = [inertial]
    for k in range(nanc):
        j = mkjoint(c, CZeros((3,)), unit('n%d' % k), 'a%d' % k, chain[-1].CS_0)
        chain.append(j.body)
    P = chain[-1]
    if nanc == 0:
        P.I_R, P.I_r, om = I3, CZeros((3,)), CZeros((3,))
    else:
        P.I_R = movingrot('P')
        P.I_r = movingvec('r')
        om = vee(mm(D(P.I_R), T(P.I_R)))
    P.I_v = D(P.I_r)
    P.I_a = D(P.I_v)
    P.I_om = om
    P._I_om_tilde = tilde(om)
    P.I_al = D(om)
    P._I_al_tilde = tilde(P.I_al)
    P._O_M, P._A_M, P._O_M_tilde, P._F_M, P._L_M = {}, {}, {}, {}, {}
    so, sa, so2, sa2 = P.I_om, P.I_v, P.I_al, P.I_a
    anc = chain[1:]
    for k, b in enumerate(anc):
        j = b.joint
        if k == len(anc) - 1:
            o, a = so / j.qd, sa / j.qd
        else:
            o, a = V('O%d' % k), V('A%d' % k)
            so, sa = so - o * j.qd, sa - a * j.qd
        P._O_M[b], P._A_M[b], P._O_M_tilde[b] = o, a, tilde(o)
        so2, sa2 = so2 - o * j.qdd, sa2 - a * j.qdd
    P._omegad_C = so2
    P._alpha_C = sa2 + inertial._alpha_C
    P._beta_C = mm(tilde(om), tilde(om)) + tilde(P._omegad_C)
    cs = P.addFrame('cs', V('s'), rot('cs'))
    # the contract of the child frames (shown below for every body)
    cs._p = mm(P.I_R, V('s'))
    cs.I_R = mm(P.I_R, rot('cs'))
    cs.I_r = P.I_r + cs._p
    return inertial, P, cs, anc


def body_contract(c, inertial, b, anc):
    sids(c, b.I_R, 'I_R')
    c.eq('d I_R', mm(tilde(b.I_om), b.I_R), D(b.I_R))
    c.eq('I_om_tilde', b._I_om_tilde, tilde(b.I_om))
    c.eq('I_v = d I_r', b.I_v, D(b.I_r))
    c.eq('I_al = d I_om', b.I_al, D(b.I_om))
    c.eq('I_al_tilde', b._I_al_tilde, tilde(b.I_al))
    c.eq('I_a = d I_v', b.I_a, D(b.I_v))
    o, a, o2, a2 = [CZeros((3,))] * 4
    for k in anc:
        o = o + lift(b._O_M[k]) * k.joint.qd
        a = a + lift(b._A_M[k]) * k.joint.qd
        o2 = o2 + lift(b._O_M[k]) * k.joint.qdd
        a2 = a2 + lift(b._A_M[k]) * k.joint.qdd
        c.eq('O_M_tilde[%s]' % k.name, b._O_M_tilde[k], tilde(b._O_M[k]))
    c.true('O_M, A_M keys', set(map(id, b._O_M)) == set(map(id, anc)) == set(map(id, b._A_M)))
    c.eq('I_om = sum O_M qd', b.I_om, o)
    c.eq('I_v = sum A_M qd', b.I_v, a)
    c.eq('I_al = sum O_M qdd + omegad_C', b.I_al, o2 + b._omegad_C)
    c.eq('I_a = sum A_M qdd + alpha_C', b.I_a, a2 + b._alpha_C - inertial._alpha_C)
    c.eq('beta_C', b._beta_C, mm(tilde(b.I_om), tilde(b.I_om)) + tilde(b._omegad_C))


def frame_contract(c, b, cs, p, R):
    n = cs.name + '.'
    c.eq(n + 'I_R', cs.I_R, mm(b.I_R, R))
    c.eq(n + 'I_r', cs.I_r, b.I_r + mm(b.I_R, p))
    c.eq(n + '_p', cs._p, mm(b.I_R, p))
    c.eq(n + '_p_tilde', cs._p_tilde, tilde(cs._p))
    c.eq(n + 'I_v = d I_r', cs.I_v, D(cs.I_r))
    c.eq(n + 'I_a = d I_v', cs.I_a, D(cs.I_v))
    c.eq(n + 'I_om', mm(tilde(cs.I_om), cs.I_R), D(cs.I_R))
    c.eq(n + 'I_al', cs.I_al, D(cs.I_om))


def rigid(c, kind, nanc):
    inertial, P, cs, anc = generic_parent(c, nanc)
    z, n = CZeros((3,)), unit('n')
    j = mkjoint(c, *((z, n) if kind == 'revolute' else (n, z)), name='b', parent=cs)
    b = j.body
    f = b.addFrame('f', V('p'), rot('f'))
    g = recursive(c, inertial, [b])
    cg, m, inertia = b.cg, b.mass, b.inertia
    g.start1stForwardRecursion(c.g)
    body_contract(c, inertial, b, anc + [b])
    c.eq('position relative to the parent frame', b.I_r, cs.I_r + mm(cs.I_R, j.Psi) * j.q)
    c.eq('orientation relative to the parent frame', b.I_R, mm(cs.I_R, j.R))
    c.eq('inertia', b.inertia, mm(b.I_R, inertia, T(b.I_R)))
    c.eq('mass', b.mass, m)
    c.eq('_Phi', b._Phi, mm(cs.I_R, j.Phi))
    c.eq('_Psi', b._Psi, mm(cs.I_R, j.Psi))
    c.eq('O_M[self]', b._O_M[b], b._Phi)
    c.eq('A_M[self]', b._A_M[b], b._Psi)
    c.eq('p_z', b._p_z_tilde, tilde(b.I_r - P.I_r))
    for a in anc:
        c.eq('O_M rigid %s' % a.name, b._O_M[a], P._O_M[a])
        c.eq('A_M rigid %s' % a.name, b._A_M[a], P._A_M[a] + cross(P._O_M[a], b.I_r - P.I_r))
    c.eq('I_l', b.I_l, b.I_r + mm(b.I_R, cg))
    c.eq('_l', b._l, mm(b.I_R, cg))
    c.eq('_l_tilde', b._l_tilde, tilde(b._l))
    c.eq('I_ldot', b.I_ldot, D(b.I_l))
    c.eq('I_lddot', b._I_l_ddot, D(D(b.I_l)))
    frame_contract(c, b, f, V('p'), rot('f'))
    frame_contract(c, b, b.CS_0, z, I3)


for kind in ('revolute', 'prismatic'):
    for n in (0, 1, 2, 3):
        ob('K01', 'processing.generator_recursive.start1stForwardRecursion',
           'step for a %s joint below %d moving joints: velocities, accelerations and partial velocities' % (kind, n),
           bounded='at most 3 moving joints above the body')(lambda c, k=kind, n=n: rigid(c, k, n))


@ob('K01', 'processing.generator_recursive.start1stForwardRecursion', 'the inertial body')
def _(c):
    from pymbs.processing import Body
    from pymbs.symbolics import Graph
    c.g = Graph()
    b = Body('world', graph=c.g)
    f = b.addFrame('f', V('p'), rot('f'))
    g = recursive(c, b, [b])
    g.start1stForwardRecursion(c.g)
    body_contract(c, b, b, [])
    c.eq('alpha_C', b._alpha_C, -1 * g.g)
    frame_contract(c, b, f, V('p'), rot('f'))


def explicit_step(c, kind, n):
    """calcBodyStates for one body whose parent frame moves arbitrarily with n coordinates"""
    from pymbs.processing import Body
    from pymbs.processing.generator_explicit import Generator_Explicit
    from pymbs.symbolics import Graph
    c.g = Graph()
    w = c.w
    moving(*['x%d' % k for k in range(n)])
    xs = [t.atom('x%d' % k) for k in range(n)]
    P = Body('P', graph=c.g)
    cs = P.addFrame('cs')
    cs.I_R = rot('P', [t.unknown('P' + k, *xs) for k in 'abc'])
    cs.I_r = CMatrix([t.unknown('r' + k, *xs) for k in 'abc'])
    cs.K_om = vee(mm(T(cs.I_R), D(cs.I_R)))
    z, ax = CZeros((3,)), unit('n')
    j = mkjoint(c, *((z, ax) if kind == 'revolute' else (ax, z)), name='b', parent=cs)
    b = j.body
    f = b.addFrame('f', V('p'), rot('f'))
    g = object.__new__(Generator_Explicit)
    q = [lift(x) for x in xs] + [j.q]
    g.__dict__.update(graph=c.g, bodies=[b], q=CMatrix(q), qd=CMatrix([D(x) for x in q]),
                      qdd=CMatrix([D(D(x)) for x in q]), kinematicsOnly=False)
    g.calcBodyStates(c.g)
    c.eq('I_R', b.I_R, mm(cs.I_R, j.R))
    c.eq('I_r', b.I_r, cs.I_r + mm(cs.I_R, j.Psi) * j.q)
    for o, p, R in ((b, None, None), (f, V('p'), rot('f')), (b.CS_0, z, I3)):
        m = o.name + '.'
        if o is not b:
            c.eq(m + 'I_R', o.I_R, mm(b.I_R, R))
            c.eq(m + 'I_r', o.I_r, b.I_r + mm(b.I_R, p))
        c.eq(m + 'd I_R = I_R skew(K_om)', D(o.I_R), mm(o.I_R, tilde(o.K_om)))
        c.eq(m + 'I_v = d I_r', o.I_v, D(o.I_r))
        c.eq(m + 'I_a = d I_v', o.I_a, D(o.I_v))
        c.eq(m + 'K_al', o.K_al, D(o.K_om))
    c.eq('I_l', b.I_l, b.I_r + mm(b.I_R, b.cg))
    c.eq('I_ldot = d I_l', b.I_ldot, D(b.I_l))


for kind in ('revolute', 'prismatic'):
    for n in (0, 1, 2):
        ob('K01', 'processing.generator_explicit.calcBodyStates',
           'step for a %s joint on a frame moving arbitrarily with %d coordinates' % (kind, n),
           bounded='at most 3 coordinates')(lambda c, k=kind, n=n: explicit_step(c, k, n))


@ob('K01', 'processing.generator_explicit.calcBodyStates', 'the inertial body')
def _(c):
    from pymbs.processing import Body
    from pymbs.processing.generator_explicit import Generator_Explicit
    from pymbs.symbolics import Graph
    b = Body('world', graph=Graph())
    f = b.addFrame('f', V('p'), rot('f'))
    g = object.__new__(Generator_Explicit)
    x = lift(t.atom('q'))
    g.__dict__.update(bodies=[b], q=CMatrix([x]), qd=CMatrix([S('qd')]), qdd=CMatrix([S('qdd')]), kinematicsOnly=False)
    g.calcBodyStates(b.graph)
    z = CZeros((3,))
    for o, p, R in ((b, z, I3), (f, V('p'), rot('f'))):
        c.eq(o.name + '.I_r', o.I_r, p)
        c.eq(o.name + '.I_R', o.I_R, R)
        for k in ('I_v', 'I_a', 'K_om', 'K_al'):
            c.eq('%s.%s' % (o.name, k), getattr(o, k), z)
