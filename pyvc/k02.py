"""K02: bodies connected by fixed joints are merged into one."""
import itertools
from . import terms as t, shim
from .ob import ob, Skip
from .gen import *
from .k01 import I3


class Spec:
    """rigid bodies placed with respect to a root frame"""

    def __init__(self):
        self.bodies = []       # (mass, position of cg, orientation, inertia about cg in body axes)

    def add(self, m, p, R, cg, I):
        self.bodies.append((lift(m), p + mm(R, cg), mm(R, I, T(R))))

    def merged(self):
        m, s = lift(0), CZeros((3,))
        for a, c, _ in self.bodies:
            m, s = lift(m + a), s + c * a
        cg = s / m
        I = CZeros((3, 3))
        for a, c, J in self.bodies:
            d = tilde(c - cg)
            I = I + J + mm(T(d), d) * a
        return m, cg, I


def system():
    from pymbs.input import MbsSystem
    return MbsSystem([0, 0, -1])


def transform(w):
    import pymbs.input.transformation as tr
    from pymbs.input import MbsSystem
    tr.setMbsSystemType(MbsSystem)
    tr._transformModel(w)
    return tr


def new(w, n, **kw):
    b = w.addBody(S('m' + n), V('c' + n), Sym('J' + n), name='B' + n)
    return b


def placed(b, n, k):
    """frame k of body n at an arbitrary place"""
    return b.addFrame('F' + k, V('p%s%s' % (n, k)), rot('R%s%s' % (n, k)))


def scenario(c, tree, joint='Rz', probe=True, order=None, names=None):
    """body 0 hangs on the world by a movable joint (or, joint None, is the world itself); tree[i] is the
    parent of body i + 1, to which it is fixed"""
    w = system()
    n = len(tree) + 1
    ids = names or list(range(n))
    bodies, joints = {}, {}
    created = order or list(range(n))
    for i in created:
        if i == 0 and joint is None:
            bodies[0] = w
        else:
            bodies[i] = new(w, str(i))
    todo = []
    if joint is not None:
        end = placed(bodies[0], '0', 'in')
        j0 = w.addJoint(w.addFrame('at', V('at'), rot('Rat')), end, joint, name='J0')
    for i in created:
        if i == 0:
            continue
        p = tree[i - 1]
        up = placed(bodies[p], str(p), 'out%d' % i)
        down = placed(bodies[i], str(i), 'in')
        joints[i] = w.addJoint(up, down, name='X%d' % i)
    frames = {}
    for i in range(n):
        f = frames[i] = placed(bodies[i], str(i), 'probe')
        frames['%d.sub' % i] = f.addFrame('sub', V('psub%d' % i), rot('Rsub%d' % i))
    # a movable body on the last one
    last = placed(bodies[n - 1], str(n - 1), 'last')
    moving_ = new(w, 'mov')
    mov_in = placed(moving_, 'mov', 'in')
    jm = w.addJoint(last, mov_in, 'Tx', name='JM')
    # where everything is with respect to body 0
    P, R = {0: CZeros((3,))}, {0: I3}

    def place(i):
        if i not in P:
            p = tree[i - 1]
            place(p)
            u, v = 'p%d' % p, 'p%d' % i
            Ru, Rd = rot('R%dout%d' % (p, i)), rot('R%din' % i)
            pu, pd = V('p%dout%d' % (p, i)), V('p%din' % i)
            # frame 'down' coincides with frame 'up'
            R[i] = mm(R[p], Ru, T(Rd))
            P[i] = P[p] + mm(R[p], pu) - mm(R[i], pd)
    spec = Spec()
    for i in range(n):
        place(i)
        if not (i == 0 and joint is None):
            spec.add(S('m%d' % i), P[i], R[i], V('c%d' % i), Sym('J%d' % i))
    tr = transform(w)
    # the merged body is expressed in its joint frame 'in' (the world: in its own frame)
    if joint is None:
        p0, R0 = CZeros((3,)), I3
        body = w.referenceToNew
    else:
        R0 = T(rot('R0in'))
        p0 = -1 * mm(R0, V('p0in'))
        body = bodies[0].referenceToNew
        c.eq('joint parent frame p', j0.referenceToNew.coordSys.p, V('at'))
        c.eq('joint parent frame R', j0.referenceToNew.coordSys.R, rot('Rat'))
        c.true('joint ends on the merged body', j0.referenceToNew.body is body and body.joint is j0.referenceToNew)
        m, cg, I = spec.merged()
        c.eq('mass', body.mass, m)
        c.eq('centre of gravity', body.cg, p0 + mm(R0, cg))
        c.eq('inertia', body.inertia, mm(R0, I, T(R0)))
    for k, f in frames.items():
        i = int(str(k).split('.')[0])
        q = f.referenceToNew
        p, r = V('p%dprobe' % i), rot('R%dprobe' % i)
        if '.' in str(k):
            p, r = p + mm(r, V('psub%d' % i)), mm(r, rot('Rsub%d' % i))
        c.true('frame %s belongs to the merged body' % k, q.parentBody is body)
        c.eq('frame %s p' % k, q.p, p0 + mm(R0, P[i] + mm(R[i], p)))
        c.eq('frame %s R' % k, q.R, mm(R0, R[i], r))
    q = jm.referenceToNew.coordSys
    c.true('movable joint on the merged body', q.parentBody is body)
    i = n - 1
    c.eq('movable joint p', q.p, p0 + mm(R0, P[i] + mm(R[i], V('p%dlast' % i))))
    c.eq('movable joint R', q.R, mm(R0, R[i], rot('R%dlast' % i)))
    b = moving_.referenceToNew
    Rm = T(rot('Rmovin'))
    c.eq('movable body mass', b.mass, S('mmov'))
    c.eq('movable body cg', b.cg, mm(Rm, V('cmov') - V('pmovin')))
    c.eq('movable body inertia', b.inertia, mm(Rm, Sym('Jmov'), T(Rm)))
    left = {id(b) for b in w.bodyDict.values()}
    c.true('merged bodies are removed', left == {id(moving_)} | ({id(bodies[0])} if joint else set()))
    c.true('no fixed joint is left', all(j.dof is not None for j in w.jointDict.values()))


CASES = {
    'no fixed joint': ([],),
    'one body': ([0],),
    'chain of two': ([0, 1],),
    'two on one': ([0, 0],),
    'chain of two, created from the tip': ([0, 1], dict(order=[2, 1, 0])),
    'chain of three': ([0, 1, 2],),
    'chain of three, mixed order': ([0, 1, 2], dict(order=[1, 3, 0, 2])),
    'tree of four': ([0, 0, 1, 1], dict(order=[3, 1, 4, 0, 2])),
    'one body fixed to the world': ([0], dict(joint=None)),
    'chain of two fixed to the world': ([0, 1], dict(joint=None, order=[2, 1, 0])),
}

for name, a in CASES.items():
    ob('K02', 'input.transformation.{flattenCSStructure,redefineCS,applyFixedJoints,updateChildCS,_transformModel}',
       name, bounded='merge trees of at most 5 bodies')(
        lambda c, a=a: scenario(c, a[0], **(a[1] if len(a) > 1 else {})))


def one_frame(c, both):
    """fixed joints that share a frame"""
    w = system()
    a, b, d = new(w, '0'), new(w, '1'), new(w, '2')
    j = w.addJoint(w, a, 'Ry', name='J0')
    f = placed(b, '1', 'in')
    u = placed(a, '0', 'out')
    w.addJoint(u, f, name='X1')
    w.addJoint(f, d, name='X2') if both else w.addJoint(u, d, name='X2')
    pr = placed(d, '2', 'probe')
    transform(w)
    R1 = mm(rot('R0out'), T(rot('R1in')))
    p1 = V('p0out') - mm(R1, V('p1in'))
    R2, p2 = rot('R0out'), V('p0out')
    s = Spec()
    s.add(S('m0'), CZeros((3,)), I3, V('c0'), Sym('J0'))
    s.add(S('m1'), p1, R1, V('c1'), Sym('J1'))
    s.add(S('m2'), p2, R2, V('c2'), Sym('J2'))
    m, cg, I = s.merged()
    B = a.referenceToNew
    c.eq('mass', B.mass, m)
    c.eq('cg', B.cg, cg)
    c.eq('inertia', B.inertia, I)
    c.eq('p', pr.referenceToNew.p, p2 + mm(R2, V('p2probe')))
    c.eq('R', pr.referenceToNew.R, mm(R2, rot('R2probe')))


for both in (True, False):
    ob('K02', 'input.transformation.applyFixedJoints',
       'two fixed joints on one frame (%s)' % ('end of one, start of the other' if both else 'start of both'),
       bounded='merge trees of at most 5 bodies')(lambda c, b=both: one_frame(c, b))


@ob('K02', 'input.transformation.applyFixedJoints', 'massless parent (dummy body of a compound joint)')
def _(c):
    w = system()
    a = w.addBody(0, [0, 0, 0], CZeros((3, 3)), name='A')
    b = new(w, '1')
    w.addJoint(w, a, ['Tx', 'Ry'], name='J0')
    w.addJoint(a, placed(b, '1', 'in'), name='X1')
    transform(w)
    R = T(rot('R1in'))
    B = a.referenceToNew
    c.eq('mass', B.mass, S('m1'))
    c.eq('cg', B.cg, mm(R, V('c1') - V('p1in')))
    c.eq('inertia', B.inertia, mm(R, Sym('J1'), T(R)))


@ob('K02', 'input.transformation.applyFixedJoints', 'two massless bodies')
def _(c):
    w = system()
    a = w.addBody(0, [0, 0, 0], CZeros((3, 3)), name='A')
    b = w.addBody(0, [0, 0, 0], CZeros((3, 3)), name='B')
    w.addJoint(w, a, 'Tx', name='J0')
    w.addJoint(a, placed(b, '1', 'in'), name='X1')
    transform(w)
    c.eq('mass', a.referenceToNew.mass, 0)
    c.eq('cg', a.referenceToNew.cg, CZeros((3,)))
    c.eq('inertia', a.referenceToNew.inertia, CZeros((3, 3)))
