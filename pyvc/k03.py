"""K03: explicit solutions of kinematic loops."""
from fractions import Fraction
from . import terms as t, shim
from .ob import ob, Skip
from .gen import *
from .k01 import I3, mkjoint, E3

PLANE = {0: (1, 2), 1: (0, 2), 2: (0, 1)}        # in-plane directions of a rotation axis


def planar(name, axis, z=0):
    e = [0, 0, 0]
    for i in PLANE[axis]:
        e[i] = S('%s_%s' % (name, 'xyz'[i]))
    e[axis] = z
    return CMatrix(e)


def along(name, i):
    return CMatrix([S(name) if k == i else 0 for k in range(3)])


class Mech:
    """open chains whose ends are closed by a loop"""

    def __init__(self, c):
        from pymbs.processing import Body
        from pymbs.symbolics import Graph
        self.c, self.g = c, Graph()
        c.g = self.g
        self.world = Body('world', graph=self.g)
        self.pos = {self.world: (CZeros((3,)), I3)}

    def joint(self, name, parent, p, kind, axis):
        cs = parent.addFrame('f_' + name, p)
        z, e = CZeros((3,)), E3(axis)
        j = mkjoint(self.c, *((z, e) if kind == 'R' else (e, z)), name=name, parent=cs)
        r, R = self.pos[parent]
        r = r + mm(R, p)
        if kind == 'R':
            R2 = mm(R, elem(axis, j.q.e[0]))
        else:
            R2, r = R, r + mm(R, e) * j.q
        self.pos[j.body] = (r, R2)
        return j

    def frame(self, name, body, p):
        return body.addFrame(name, p)

    def place(self, cs):
        r, R = self.pos[cs.parentBody]
        return r + mm(R, cs.p)

    def check(self, loop, A, B, extra=()):
        """closure of the frames A and B, velocities and accelerations"""
        c, w = self.c, self.c.w
        g = self.place(A) - self.place(B)
        g = [lift(x) for x in g] + [lift(x) for x in extra]
        gd = [D(x) for x in g]
        gdd = [D(x) for x in gd]
        v, Bvu, b = loop.calc(self.g)
        c.true('as many expressions as dependent coordinates', len(v) == len(loop.v) == len(loop.vd) == len(loop.vdd))
        c.eq('shape of Bvu', CMatrix(tuple(lift(Bvu).dims)), CMatrix((len(loop.v), len(loop.u))))
        vd = mm(Bvu, CMatrix(loop.ud))
        vdd = mm(Bvu, CMatrix(loop.udd)) + lift(b)
        for i in range(len(loop.v)):
            w.defs[loop.v[i].e[0]] = lift(v[i]).e[0]
        for i in range(len(loop.v)):
            w.defs[loop.vd[i].e[0]] = vd.e[i]
            w.defs[loop.vdd[i].e[0]] = vdd.e[i]
        for n, xs in (('closure', g), ('velocity', gd), ('acceleration', gdd)):
            for i, x in enumerate(xs):
                c.eq('%s %s' % (n, 'xyz'[i] if i < 3 else i), x, 0)


def fourbar(c, axis, posture, swap, stacked):
    from pymbs.processing.loops.fourbar import FourBar
    m = Mech(c)
    h = [S('h%d' % i) if stacked else 0 for i in range(3)]
    jA = m.joint('A', m.world, planar('a', axis, h[0]), 'R', axis)
    jB = m.joint('B', jA.body, planar('b', axis, h[1]), 'R', axis)
    jD = m.joint('D', m.world, planar('d', axis, h[2]), 'R', axis)
    C3 = m.frame('C3', jB.body, planar('c', axis))
    C4 = m.frame('C4', jD.body, planar('e', axis, h[0] + h[1] - h[2]))
    l = FourBar('L', *((C4, C3) if swap else (C3, C4)), posture)
    c.true('independent and dependent coordinates', l.u == [jA.q] and l.v == [jB.q, jD.q] and l.ud == [jA.qd]
           and l.vd == [jB.qd, jD.qd] and l.udd == [jA.qdd] and l.vdd == [jB.qdd, jD.qdd])
    m.check(l, C3, C4)


for axis in range(3):
    for posture in (1, -1):
        for swap in (False, True):
            for st in (False, True):
                if swap and (st or posture < 0):
                    continue
                ob('K03', 'processing.loops.fourbar.FourBar', 'axis %s, posture %d%s%s' % (
                    'xyz'[axis], posture, ', frames swapped' if swap else '', ', links in different planes' if st else ''))(
                    lambda c, a=(axis, posture, swap, st): fourbar(c, *a))


def crank(c, axis, slide, swap, general):
    from pymbs.processing.loops.crank_slider import CrankSlider
    m = Mech(c)
    z = CZeros((3,))
    j1 = m.joint('J1', m.world, CMatrix([0, 0, 0]), 'R', axis)
    j3 = m.joint('J3', m.world, planar('s', axis) if general else CMatrix([0, 0, 0]), 'T', slide)
    j2 = m.joint('J2', j3.body, planar('r', axis) if general else CMatrix([0, 0, 0]), 'R', axis)
    b1 = m.frame('b1', j1.body, planar('l1', axis) if general else along('l1', slide))
    b2 = m.frame('b2', j2.body, planar('l2', axis) if general else along('l2', slide))
    c.positive |= {t.atom('l1'), t.atom('l2')}
    l = CrankSlider('L', *((b2, b1) if swap else (b1, b2)))
    c.true('independent and dependent coordinates', l.u == [j1.q] and l.v == [j3.q, j2.q] and l.ud == [j1.qd]
           and l.vd == [j3.qd, j2.qd] and l.udd == [j1.qdd] and l.vdd == [j3.qdd, j2.qdd])
    m.check(l, b1, b2)


for axis in range(3):
    for slide in PLANE[axis]:
        for swap, gen in ((False, False), (True, False), (False, True)):
            ob('K03', 'processing.loops.crank_slider.CrankSlider', 'axis %s, slide %s%s%s' % (
                'xyz'[axis], 'xyz'[slide], ', frames swapped' if swap else '', ', links and offsets in any direction' if gen else ''))(
                lambda c, a=(axis, slide, swap, gen): crank(c, *a))


def three(c, axis, slide, swap):
    from pymbs.processing.loops.threebar_trans import ThreeBarTrans
    m = Mech(c)
    jA = m.joint('A', m.world, planar('a', axis), 'R', axis)
    jC = m.joint('C', m.world, planar('c', axis), 'R', axis)
    jCB = m.joint('CB', jC.body, CMatrix([0, 0, 0]), 'T', slide)
    B2 = m.frame('B2', jA.body, planar('b', axis))
    B3 = m.frame('B3', jCB.body, CMatrix([0, 0, 0]))
    l = ThreeBarTrans('L', *((B3, B2) if swap else (B2, B3)))
    c.true('independent and dependent coordinates', l.u == [jA.q] and l.v == [jCB.q, jC.q] and l.ud == [jA.qd]
           and l.vd == [jCB.qd, jC.qd] and l.udd == [jA.qdd] and l.vdd == [jCB.qdd, jC.qdd])
    m.check(l, B2, B3)


def fourtrans(c, axis, slide, swap):
    from pymbs.processing.loops.fourbar_trans import FourBarTrans
    m = Mech(c)
    jA = m.joint('A', m.world, planar('a', axis), 'R', axis)
    jB = m.joint('B', jA.body, planar('b', axis), 'R', axis)
    jD = m.joint('D', m.world, planar('d', axis), 'R', axis)
    jDC = m.joint('DC', jD.body, CMatrix([0, 0, 0]), 'T', slide)
    C3 = m.frame('C3', jB.body, planar('c', axis))
    C4 = m.frame('C4', jDC.body, CMatrix([0, 0, 0]))
    l = FourBarTrans('L', *((C4, C3) if swap else (C3, C4)))
    c.true('independent and dependent coordinates', l.u == [jA.q, jB.q] and l.v == [jDC.q, jD.q]
           and l.ud == [jA.qd, jB.qd] and l.vd == [jDC.qd, jD.qd] and l.udd == [jA.qdd, jB.qdd] and l.vdd == [jDC.qdd, jD.qdd])
    m.check(l, C3, C4)


for axis in range(3):
    for slide in PLANE[axis]:
        for swap in (False, True):
            n = 'axis %s, slide %s%s' % ('xyz'[axis], 'xyz'[slide], ', frames swapped' if swap else '')
            ob('K03', 'processing.loops.threebar_trans.ThreeBarTrans', n)(lambda c, a=(axis, slide, swap): three(c, *a))
            ob('K03', 'processing.loops.fourbar_trans.FourBarTrans', n)(lambda c, a=(axis, slide, swap): fourtrans(c, *a))


@ob('K03', 'processing.loops.transmission.Transmission', 'j2.q = ratio j1.q')
def _(c):
    from pymbs.processing.loops.transmission import Transmission
    for k, r in enumerate((1, -2.5, 0.125, 0)):
        m = Mech(c)
        w = c.w
        j1 = m.joint('J1%d' % k, m.world, CMatrix([0, 0, 0]), 'R', 2)
        j2 = m.joint('J2%d' % k, m.world, CMatrix([0, 0, 0]), 'T', 0)
        l = Transmission('L%d' % k, j1, j2, r)
        v, B, b = l.calc(m.g)
        c.true('coordinates', l.u == [j1.q] and l.v == [j2.q] and l.ud == [j1.qd] and l.vd == [j2.qd]
               and l.udd == [j1.qdd] and l.vdd == [j2.qdd])
        c.eq('position, ratio %s' % r, v[0], r * j1.q)
        c.eq('velocity, ratio %s' % r, mm(B, CMatrix(l.ud)), CMatrix([D(r * j1.q)]))
        c.eq('acceleration, ratio %s' % r, mm(B, CMatrix(l.udd)) + lift(b), CMatrix([D(D(r * j1.q))]))


@ob('K03', 'processing.loops.hexapod.Hexapod', 'axis along x at any points of both platforms')
def _(c):
    from pymbs.processing.loops.hexapod import Hexapod
    m = Mech(c)
    z = CZeros((3,))
    b, js = m.world, []
    for i, k in enumerate('TTTRRR'):
        js.append(m.joint('D%d' % i, b, CMatrix([0, 0, 0]), k, i % 3))
        b = js[-1].body
    tp = m.frame('tp', b, V('tp'))
    a1 = m.joint('A1', m.world, V('bp'), 'R', 1)
    a2 = m.joint('A2', a1.body, CMatrix([0, 0, 0]), 'R', 2)
    jb = m.joint('B', a2.body, CMatrix([0, 0, 0]), 'T', 0)
    cs = m.frame('C3', jb.body, CMatrix([0, 0, 0]))
    l = Hexapod('L', tp, cs)
    c.true('independent and dependent coordinates', l.u == [j.q for j in js] and l.v == [jb.q, a1.q, a2.q]
           and l.ud == [j.qd for j in js] and l.vd == [jb.qd, a1.qd, a2.qd]
           and l.udd == [j.qdd for j in js] and l.vdd == [jb.qdd, a1.qdd, a2.qdd])
    m.check(l, tp, cs)


def steering(c, sH, sS):
    """slider along y, bar 1 along y, bar 2 along y and bar 3 along x at zero, as the formulas assume"""
    from pymbs.processing.loops.steering import Steering
    m = Mech(c)
    ax, ay, az, h, l0, l1, r2, r3 = [S(n) for n in ('ax', 'ay', 'az', 'h', 'l0', 'l1', 'r2', 'r3')]
    c.positive |= {x.e[0] for x in (h, l0, l1, r2, r3)}
    jA = m.joint('A', m.world, CMatrix([ax, ay, az]), 'T', 1)
    jB = m.joint('B', jA.body, CMatrix([0, sS * l1, 0]), 'R', 2)
    jC = m.joint('C', jB.body, CMatrix([0, sS * r2, 0]), 'R', 2)
    Da = m.frame('Da', m.world, CMatrix([ax + sH * h, ay + sS * l0, az]))
    Db = m.frame('Db', jC.body, CMatrix([r3, 0, 0]))
    l = Steering('L', Da, Db, sH, sS)
    c.true('independent and dependent coordinates', l.u == [jA.q] and l.v == [jB.q, jC.q] and l.ud == [jA.qd]
           and l.vd == [jB.qd, jC.qd] and l.udd == [jA.qdd] and l.vdd == [jB.qdd, jC.qdd])

    def setup(f):
        # the angle of bar 2 lies in the range of asin
        a = lift(jB.q).e[0]
        k = l0.e[0], l1.e[0], lift(jA.q).e[0]
        d = m.place(Db) - m.place(jC.coordSys)
        y = t.sub(t.sub(t.sub(k[0], k[1]), t.mul(t.num(sS), k[2])), t.mul(t.num(sS), CMatrix(d).e[1]))
        v = f.val(t.div(y, r2.e[0]))
        if isinstance(v, float):
            if v < 0:
                raise t.Retry
        elif t.legendre(v % t.P) != 1:
            raise t.Retry
    c.setup = setup
    m.check(l, Da, Db)


for sH in (1, -1):
    for sS in (1, -1):
        ob('K03', 'processing.loops.steering.Steering', 'setup H %d, setup S %d' % (sH, sS))(lambda c, a=(sH, sS): steering(c, *a))


def chained(c, n, spec, order):
    """n joints; spec: (independent, dependent) coordinates of the loops; order in which they are declared"""
    from pymbs.processing.generator import Generator
    from pymbs.processing.loops.loop import Loop
    m = Mech(c)
    b, js = m.world, []
    for i in range(n):
        js.append(m.joint('J%d' % i, b, CMatrix([0, 0, 0]), 'R', 2))
        js[-1].q0, js[-1].qd0 = S('q0%d' % i), S('qd0%d' % i)
        b = js[-1].body

    class Any(Loop):
        """a loop whose solution obeys K03: any position, any Bvu, any b'"""

        def __init__(self, name, us, vs):
            Loop.__init__(self, name)
            self.u, self.v = [js[i].q for i in us], [js[i].q for i in vs]
            self.ud, self.vd = [js[i].qd for i in us], [js[i].qd for i in vs]
            self.udd, self.vdd = [js[i].qdd for i in us], [js[i].qdd for i in vs]
            self.B, self.b = Mat('B' + name, len(vs), len(us)), CMatrix([S('b%s%d' % (name, i)) for i in range(len(vs))])
            self.x = [S('v%s%d' % (name, i)) for i in range(len(vs))]

        def calc(self, graph):
            return self.x, self.B, self.b

    ls = [Any('L%d' % i, *s) for i, s in enumerate(spec)]
    g = Generator('g', m.g, m.world, CMatrix([0, 0, 0]), [], [ls[i] for i in order])
    dep = [i for s in spec for i in s[1]]
    ind = [i for i in range(n) if i not in dep]
    c.true('order of the coordinates', g.joints == js)
    p = CMatrix([j.qdd for j in js])
    q0 = [js[i].q for i in ind]
    J, d = g.handleLoops(m.g)
    c.true('the state consists of the independent coordinates', list(g.state.q) == q0 and list(g.state.qd) == [js[i].qd for i in ind]
           and list(g.state.qdd) == [js[i].qdd for i in ind])
    c.eq('g.q', g.q, CMatrix(q0))
    c.eq('g.qd', g.qd, CMatrix([js[i].qd for i in ind]))
    c.eq('g.qdd', g.qdd, CMatrix([js[i].qdd for i in ind]))
    c.eq('independent initial values', g.q0, CMatrix([js[i].q0 for i in ind]))
    c.eq('independent initial velocities', g.qd0, CMatrix([js[i].qd0 for i in ind]))
    for l in ls:
        for i, v in enumerate(l.v):
            c.eq('%s position %d' % (l.name, i), v, l.x[i])
        c.eq(l.name + ' velocity', CMatrix(l.vd), mm(l.B, CMatrix(l.ud)))
        c.eq(l.name + ' acceleration', CMatrix(l.vdd), mm(l.B, CMatrix(l.udd)) + l.b)
    c.eq('accelerations = J independent accelerations + d', p, mm(J, CMatrix([js[i].qdd for i in ind])) + d)
    c.eq('velocities = J independent velocities', CMatrix([j.qd for j in js]), mm(J, CMatrix([js[i].qd for i in ind])))


for n, spec, order, name in (
        (3, [((0,), (1, 2))], (0,), 'one loop'),
        (3, [((2,), (0, 1))], (0,), 'dependent coordinates first'),
        (4, [((0, 2), (1, 3))], (0,), 'two independent coordinates'),
        (6, [((0,), (1, 2)), ((3,), (5, 4))], (0, 1), 'separate loops'),
        (6, [((0,), (1, 2)), ((3,), (5, 4))], (1, 0), 'separate loops, other order'),
        (5, [((0,), (1, 2)), ((2,), (3, 4))], (0, 1), 'a loop driven by another one'),
        (5, [((0,), (1, 2)), ((2,), (3, 4))], (1, 0), 'a loop driven by one declared later'),
        (6, [((0,), (2, 1)), ((1, 3), (5, 4))], (1, 0), 'a loop driven by another one and a joint, declared first'),
        (6, [((0,), (2, 1)), ((3, 1), (5, 4))], (0, 1), 'a loop driven by a joint and another one'),
        (7, [((0,), (1, 2)), ((2,), (3, 4)), ((1, 4), (5, 6))], (2, 1, 0), 'three loops in reverse order'),
        (7, [((0,), (1, 2)), ((2,), (3, 4)), ((4,), (5, 6))], (1, 2, 0), 'a chain of three loops')):
    ob('K03', 'processing.generator.Generator.handleLoops', name, bounded='up to three loops and seven coordinates, '
       'any loop solutions')(lambda c, a=(n, spec, order): chained(c, *a))
