"""K05: sensors report the quantity they are named for."""
from . import terms as t
from .ob import ob
from .gen import *
from .k04b import chain, loaded, text, FREE, plenty, transmission, fourbar, crank
from .model import Model, MODES


def run(c, mode, build, kw):
    m = Model(c)
    build(m)
    m.generate(mode, **kw)
    c.true('sensors were checked', m.sensors)
    m.check_sensors()


def case(kind, name, build, modes=MODES, thorough=False, **kw):
    for mode in modes:
        ob('K05', 'MbsSystem.addSensor.%s, %s' % (kind, mode), name, points=1, thorough=thorough,
           bounded='this topology; any state, geometry, masses, inertia, gravity and loads')(
            lambda c, a=(mode, build, kw): run(c, *a))


TREES = [[(-1, ['Rx']), (0, ['Ty', 'Rz'])], [(-1, ['Tz']), (0, ['Ry']), (0, ['Rx'])], [(-1, ['Ry']), (0, []), (1, ['Tx'])],
         [(-1, FREE), (0, ['Rz'])], [(-1, []), (0, ['Rx']), (1, []), (2, [])]]
TWO = ('Position', 'Velocity', 'Acceleration', 'Orientation', 'AngularVelocity', 'AngularAcceleration', 'Distance')
REF = ('Position', 'Velocity', 'Acceleration', 'AngularVelocity', 'AngularAcceleration')


def pairs(kind, links):
    """every kind of pair of frames: of two bodies, of one body, of a body and the world, in both orders"""
    def build(m):
        bs = chain(*links)(m)
        A, B, C, W = m.frame('A', bs[0]), m.frame('B', bs[-1]), m.frame('C', bs[-1]), m.frame('W', m.world)
        for i, a in enumerate(((A, B), (B, A), (W, B), (B, W), (m.world, A), (bs[0], m.world), (B, C), (bs[-1], C))):
            if kind == 'Distance' and i > 3 and links[0][1] == FREE:
                break
            m.sensor(kind, 'S%d' % i, *a)
        if kind in REF:
            for i, a in enumerate(((A, B, C), (A, B, W), (A, B, m.world), (W, B, A), (B, W, B), (W, A, C), (A, B, A))):
                m.sensor(kind, 'R%d' % i, *a)
    return build


for kind in TWO:
    for links in TREES:
        case(kind, text(links), pairs(kind, links))
        if 'Acc' not in kind:
            case(kind, text(links) + ', kinematics only', pairs(kind, links), kinematicsOnly=True, thorough=links != TREES[0])


def joints(links):
    def build(m):
        k = 0
        for b in chain(*links)(m):
            for j in b.joints:
                m.sensor('Joint', 'S%d' % k, j)
                k += 1
    return build


def energy(links):
    def build(m):
        for i, b in enumerate(chain(*links)(m)):
            m.sensor('Energy', 'S%d' % i, b)
    return build


def total(links):
    def build(m):
        chain(*links)(m)
        m.sensor('Energy', 'S', m.world)
    return build


def centre(links, some):
    def build(m):
        bs = chain(*links)(m)
        m.centre('S', bs[1:] if some else None)
    return build


for links in TREES + [[(-1, ['Rx'])], [(-1, ['Tx', 'Ry'])]]:
    case('Joint', text(links), joints(links))
    case('Energy', text(links), energy(links))
    case('Energy', 'whole system: ' + text(links), total(links))
    case('CenterofMass', text(links), centre(links, False))
    if len(links) > 1:
        case('CenterofMass', 'some bodies: ' + text(links), centre(links, True))


def twice(m):
    bs = chain(*TREES[0])(m)
    m.centre('S', bs)
    m.centre('U', bs[1:])
    m.sensor('Position', 'P', m.world, bs[1])


case('CenterofMass', 'two sensors for the same bodies', twice)


# the load of a joint ------------------------------------------------------------------------------------
def reaction(links, f=None):
    def build(m):
        bs = chain(*links)(m)
        if f:
            A, B, C, W = m.frame('A', bs[0]), m.frame('B', bs[-1]), m.frame('C', bs[-1]), m.frame('W', m.world)
            f(m, A, B, C, W)
        k = 0
        for b in bs:
            for j in b.joints:
                m.sensor('ConstraintForce', 'F%d' % k, j)
                m.sensor('ConstraintTorque', 'T%d' % k, j)
                k += 1
    return build


LOADS = [('force', lambda m, A, B, C, W: m.force('L', B, A)), ('force on the world', lambda m, A, B, C, W: m.force('L', B, m.world, A)),
         ('torque', lambda m, A, B, C, W: m.torque('L', A, B, W)), ('ptp', lambda m, A, B, C, W: m.ptp('L', A, B)),
         ('spring', lambda m, A, B, C, W: m.spring('L', W, B)), ('drive', lambda m, A, B, C, W: m.drive('L', m.bodies[-1].joints[-1])),
         ('drive of the first joint', lambda m, A, B, C, W: m.drive('L', m.bodies[0].joints[0])), ('several loads', plenty)]
REC = MODES[:1]
for links in TREES + [[(-1, ['Rx'])], [(-1, ['Ty'])]]:
    case('ConstraintForce', text(links), reaction(links), REC)
for n, f in LOADS:
    case('ConstraintForce', n, reaction(TREES[0], f), REC)
    if n != 'several loads':
        case('ConstraintForce', n + ' in a tree', reaction(TREES[1], f), REC)


# the helpers --------------------------------------------------------------------------------------------
HELP = [('addTyreSensorsLoads', lambda m, P, Q, X, W: m.tyre('t', P, Q)), ('addContactSensorsLoads', lambda m, P, Q, X, W: m.contact('t', Q)),
        ('addHydCylSensorsLoads', lambda m, P, Q, X, W: m.cylinder('t', P, Q)),
        ('addMotionSystemSensors', lambda m, P, Q, X, W: m.platform(Q, 't')), ('addGraphicSensors', lambda m, P, Q, X, W: m.graphic(Q, 't'))]
for n, f in HELP:
    case(n, 'sensors', loaded(f))

# loops --------------------------------------------------------------------------------------------------
def closed(loop, A, B):
    def build(m):
        loop(m)
        a, b = m.bodies[A], m.bodies[B]
        P, Q = m.frame('P', a), m.frame('Q', b)
        for k in TWO:
            m.sensor(k, 'S' + k, P, Q)
        for k in ('Velocity', 'Acceleration', 'AngularVelocity'):
            m.sensor(k, 'W' + k, m.world, Q, P)
        for i, j in enumerate(a.joints + b.joints):
            m.sensor('Joint', 'J%d' % i, j)
    return build


for n, l, A, B in (('transmission', transmission, 0, 2), ('four-bar linkage', fourbar, 1, 2), ('crank slider', crank, 0, 2)):
    case('all', n, closed(l, A, B), MODES[:2])
