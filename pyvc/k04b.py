"""K04: the equations of motion of systems described through the user interface."""
from . import terms as t
from .ob import ob
from .gen import *
from .k03 import planar
from .model import Model, MODES


def run(c, mode, build):
    m = Model(c)
    build(m)
    m.generate(mode)
    m.check_motion()


def case(name, build, modes=MODES, thorough=False, props='K04'):
    for mode in modes:
        ob('K04', 'MbsSystem.genEquations.' + mode, name, points=1, thorough=thorough,
           bounded='this topology; any state, geometry, masses, inertia, gravity and loads')(
            lambda c, a=(mode, build): run(c, *a))


def chain(*links, **kw):
    """links: (predecessor or -1, degrees of freedom)"""
    def build(m):
        bs = []
        for i, (p, dofs) in enumerate(links):
            on = m.world if p < 0 else bs[p]
            bs.append(m.body('B%d' % i, m.frame('F%d' % i, on), dofs, **kw))
        return bs
    return build


def text(links):
    return ', '.join('%s on %s' % ('+'.join(d) or 'fixed', 'world' if p < 0 else 'B%d' % p) for p, d in links)


ALL = ['%s%s' % (k, a) for k in 'TR' for a in 'xyz']
FREE = ['Tx', 'Ty', 'Tz', 'Rx', 'Ry', 'Rz']
TREES = [[(-1, [d])] for d in ALL] + [
    [(-1, [])],
    [(-1, FREE)], [(-1, ['Rz', 'Rx', 'Ry'])], [(-1, ['Rx', 'Tz'])],
    [(-1, ['Ry']), (0, []), (1, []), (2, ['Rx'])], [(-1, []), (0, []), (1, ['Ty'])],     [(-1, ['Ry']), (0, [])], [(-1, []), (0, ['Rx'])], [(-1, ['Ry']), (0, []), (1, ['Tx']), (0, [])],
    [(-1, ['Rx']), (0, ['Ry'])], [(-1, ['Rz']), (0, ['Tx'])], [(-1, ['Ty']), (0, ['Rz'])], [(-1, ['Tz']), (0, ['Tz'])],
    [(-1, ['Rx']), (-1, ['Tx'])], [(-1, ['Rx']), (0, ['Ry']), (1, ['Rz'])], [(-1, ['Tx']), (0, ['Ry', 'Rz'])],
    [(-1, ['Rz']), (0, ['Rx']), (0, ['Ty'])], [(-1, ['Ry']), (0, ['Rx']), (0, ['Rz']), (2, ['Tx'])],
    [(-1, ['Rz']), (0, ['Rz']), (-1, ['Ry']), (2, ['Tx'])]]
for links in TREES:
    if links != [(-1, [])]:
        case(text(links), chain(*links))
case('a single joint from body to body without frames', lambda m: m.body('C', m.body('B', m.world, ['Rx'], end=False), ['Ry'], end=False))
BIG = [[(-1, FREE), (0, ['Rx']), (0, ['Ry', 'Rz'])], [(-1, FREE), (0, ['Tz']), (1, ['Ry']), (0, ['Tz']), (3, ['Ry'])],
       [(-1, ['Rx']), (0, ['Ry']), (1, ['Rz']), (2, ['Tx']), (3, ['Ry'])], [(-1, ['Rx', 'Ry']), (0, ['Rx', 'Ry']), (1, ['Rx', 'Ry'])],
       [(-1, ['Tx']), (0, ['Rx']), (0, ['Ry']), (0, ['Rz']), (1, ['Tz']), (1, ['Rz'])]]
for links in BIG:
    case(text(links), chain(*links), thorough=True)


def dummy(m):
    a = m.body('A', m.frame('F', m.world), ['Ry'], massless=True)
    b = m.body('B', m.frame('G', a), ['Rx'])
    m.body('E', m.frame('H', b), ['Tz'], massless=True, end=False)
    m.body('D', m.frame('K', m.bodies[-1]), ['Rz'])


case('massless bodies between the joints', dummy)


def twice(m):
    """the description of the degrees of freedom is used for two joints"""
    d = ['Tx', 'Rz']
    h = [m.w.addBody(S('m%d' % i), V('c%d' % i), Sym('I%d' % i), name='B%d' % i) for i in range(2)]
    from .model import Bd, I3
    on = m.world
    for i in range(2):
        b = Bd('B%d' % i)
        b.m, b.cg, b.I, b.handle = S('m%d' % i), V('c%d' % i), Sym('I%d' % i), h[i]
        f = m.frame('F%d' % i, on)
        js = m.w.addJoint(f.handle, h[i], d, name='J%d' % i)
        m.c.true('joint %d has two degrees of freedom' % i, isinstance(js, list) and len(js) == 2)
        m.links.append((b, f, b, ['Tx', 'Rz'], js))
        m.bodies.append(b)
        on = b


case('one list describes two joints', twice)

# loads --------------------------------------------------------------------------------------------------
PAIR = chain((-1, ['Rx']), (0, ['Ty', 'Rz']))


def loaded(f):
    def build(m):
        a, b = PAIR(m)
        f(m, m.frame('P', a), m.frame('Q', b), m.frame('V', b), m.frame('W', m.world))
    return build


REFS = [('its first frame', None), ('its first frame, named', 'Q'), ('its second frame', 'P'), ('a frame of the same body', 'V'),
        ('a frame of the world', 'W'), ('the world', 'world')]
for what in ('force', 'torque'):
    for n, r in REFS:
        def f(m, P, Q, X, W, what=what, r=r):
            getattr(m, what)('L', Q, P, {None: None, 'Q': Q, 'P': P, 'V': X, 'W': W, 'world': m.world}[r])
        case('%s between two bodies given in %s' % (what, n), loaded(f))
    for n, r in REFS:
        def f(m, P, Q, X, W, what=what, r=r):
            getattr(m, what)('L', W, Q, {None: None, 'Q': W, 'P': Q, 'V': X, 'W': P, 'world': m.world}[r])
        case('%s on the world and a body given in %s' % (what, n), loaded(f), thorough=True)
    def f(m, P, Q, X, W, what=what):
        getattr(m, what)('L', Q, m.world)
        getattr(m, what)('K', m.world, P, Q)
    case('%s between a body and the world' % what, loaded(f))
    def f(m, P, Q, X, W, what=what):
        getattr(m, what)('L', Q, X, P)
        getattr(m, what)('K', m.bodies[0], Q)
    case('%s between frames of one body, and with a body itself' % what, loaded(f))
for what in ('ptp', 'spring', 'cylinder'):
    case(what + ' between two bodies', loaded(lambda m, P, Q, X, W, what=what: getattr(m, what)('L', P, Q)))
    case(what + ' between a body and a frame of the world', loaded(lambda m, P, Q, X, W, what=what: getattr(m, what)('L', Q, W)))
    case(what + ' between the world and a body', loaded(lambda m, P, Q, X, W, what=what: getattr(m, what)('L', m.world, Q)))
case('driven joints', loaded(lambda m, P, Q, X, W: [m.drive('D%d' % i, j) for i, j in enumerate([m.bodies[0].joints[0]] + m.bodies[1].joints)]))
case('tyre', loaded(lambda m, P, Q, X, W: m.tyre('L', P, Q)))
case('contact', loaded(lambda m, P, Q, X, W: m.contact('L', Q)))


def plenty(m, P, Q, X, W):
    m.force('L1', Q, P)
    m.torque('L2', Q, m.world, P)
    m.ptp('L3', P, Q)
    m.drive('L4', m.bodies[1].joints[1])
    m.spring('L5', Q, W)
    m.force('L6', Q, W, X)
    m.ptp('L7', X, W)


case('several loads at the same frames', loaded(plenty))
case('loads in a tree', lambda m: many(m), thorough=True)


def many(m):
    a, b, d = chain((-1, FREE), (0, ['Rz']), (0, ['Tx']))(m)
    A, B, E = m.frame('A', a), m.frame('B', b), m.frame('E', d)
    m.force('L1', A, B, E)
    m.torque('L2', E, m.world)
    m.spring('L3', B, E)
    m.drive('L4', d.joints[0])
    m.ptp('L5', A, m.world)


# loops --------------------------------------------------------------------------------------------------
CLOSED = MODES[:2]


def flat(m, n, b):
    return m.frame(n, b, False, p=planar(n, 2))


def transmission(m):
    a, b, d = chain((-1, ['Ry']), (0, ['Tx']), (1, ['Rz']))(m)
    m.w.addLoop.Transmission(a.joints[0], b.joints[0], -2.5, 'L')
    m.drive('D', b.joints[0])


def transmissions(m):
    a, b, d = chain((-1, ['Ry']), (-1, ['Rx']), (1, ['Rz']))(m)
    m.w.addLoop.Transmission(b.joints[0], d.joints[0], -2, 'L2')
    m.w.addLoop.Transmission(a.joints[0], b.joints[0], 3, 'L1')
    m.force('F', m.frame('P', d), m.world)


def fourbar(m, posture=1):
    a = m.body('A', flat(m, 'wa', m.world), ['Rz'], end=False)
    b = m.body('B', flat(m, 'ab', a), ['Rz'], end=False)
    d = m.body('D', flat(m, 'wd', m.world), ['Rz'], end=False)
    C3, C4 = flat(m, 'C3', b), flat(m, 'C4', d)
    m.w.addLoop.FourBar(C3.handle, C4.handle, posture, 'L')
    m.force('F', C3, m.world)
    m.drive('D1', d.joints[0])
    m.drive('D2', a.joints[0])


def crank(m):
    a = m.body('A', m.world, ['Rz'], end=False)
    s = m.body('S', m.world, ['Tx'], end=False)
    r = m.body('R', s, ['Rz'], end=False)
    b1, b2 = flat(m, 'b1', a), flat(m, 'b2', r)
    m.w.addLoop.CrankSlider(b1.handle, b2.handle, 'L')
    m.drive('D', s.joints[0])
    m.spring('sp', b1, m.world)


def threebar(m):
    a = m.body('A', flat(m, 'wa', m.world), ['Rz'], end=False)
    k = m.body('K', flat(m, 'wk', m.world), ['Rz'], end=False)
    e = m.body('E', k, ['Tx'], end=False)
    m.w.addLoop.ThreeBarTrans(flat(m, 'B2', a).handle, e.handle, 'L')
    m.ptp('P', k, e)


def fourtrans(m):
    a = m.body('A', flat(m, 'wa', m.world), ['Rz'], end=False)
    b = m.body('B', flat(m, 'ab', a), ['Rz'], end=False)
    d = m.body('D', flat(m, 'wd', m.world), ['Rz'], end=False)
    e = m.body('E', d, ['Tx'], end=False)
    m.w.addLoop.FourBarTrans(flat(m, 'C3', b).handle, e.handle, 1, 'L')
    m.force('F', m.frame('P', e), m.world)


case('transmission', transmission, CLOSED)
case('transmissions in series, the later one first', transmissions, CLOSED)
case('four-bar linkage', fourbar, CLOSED)
case('four-bar linkage, other posture', lambda m: fourbar(m, -1), CLOSED, thorough=True)
case('crank slider', crank, CLOSED)
case('three bars and a slide', threebar, CLOSED)
case('four bars and a slide', fourtrans, CLOSED)
