"""Systems described through the user interface (MbsSystem), and the same systems written down with vectors and
rotation matrices: positions, velocities, accelerations, loads and Newton-Euler, independent of the library."""
from . import terms as t, shim
from .gen import *
from .k01 import I3, E3

AX = 'xyz'
MODES = ('Recursive', 'Explicit', 'OrderN')


class Fr:
    """a place on a body: the frame of the user interface and its position and orientation in the body"""

    def __init__(self, handle, body, p, R):
        self.handle, self.body, self.p, self.R = handle, body, p, R


class Bd(Fr):
    def __init__(self, name):
        self.name, self.body, self.p, self.R = name, self, CZeros((3,)), I3


class Model:
    def __init__(self, c):
        from pymbs.input import MbsSystem
        import pymbs.input.transformation as tr
        self.c, self.W = c, c.w
        self.w = MbsSystem([0, 0, -1])
        tr.setMbsSystemType(MbsSystem)
        self.w.gravity_vect, self.w.gravity_const = V('gr'), 1
        self.gravity = V('gr')
        self.world = Bd('world')
        self.world.handle = self.w
        self.bodies, self.links, self.power, self.sensors = [], [], [], []

    # construction -------------------------------------------------------------------------------------
    def frame(self, name, on, rotated=True, offset=True, p=None):
        if p is None:
            p = V('p' + name) if offset else CMatrix([0, 0, 0])
        R = rot('R' + name) if rotated else I3
        h = on.handle.addFrame(name, p, R)
        return Fr(h, on.body, on.p + mm(on.R, p), mm(on.R, R))

    def body(self, name, at, dofs, end=True, massless=False):
        """end: the joint ends at a frame of the new body in general position"""
        b = Bd(name)
        if massless:
            b.m, b.cg, b.I = lift(0), CZeros((3,)), CZeros((3, 3))
            b.handle = self.w.addBody(0, name=name)
        else:
            b.m, b.cg, b.I = S('m' + name), V('c' + name), Sym('I' + name)
            b.handle = self.w.addBody(b.m, b.cg, b.I, name=name)
        f = self.frame('in' + name, b) if end else b
        j = self.w.addJoint(at.handle, f.handle, list(dofs), name='J' + name)
        js = (j if isinstance(j, list) else [j]) if dofs else []
        self.links.append((b, at, f, list(dofs), js))
        self.bodies.append(b)
        b.joints = js
        return b

    def input(self, name, shape=None):
        return self.w.addInput(name, shape)

    def force(self, name, A, B, ref=None):
        F = self.input(name, (3,))
        self.w.addLoad.CmpForce(F, A.handle, B.handle, ref and ref.handle, name='L' + name)
        self.power += [('f', A, ref or A, F, 1), ('f', B, ref or A, F, -1)]

    def torque(self, name, A, B, ref=None):
        F = self.input(name, (3,))
        self.w.addLoad.CmpTorque(F, A.handle, B.handle, ref and ref.handle, name='L' + name)
        self.power += [('t', A, ref or A, F, 1), ('t', B, ref or A, F, -1)]

    def ptp(self, name, A, B):
        F = self.input(name)
        self.w.addLoad.PtPForce(F, A.handle, B.handle, name='L' + name)
        self.power.append(('p', A, B, F, 1))

    def drive(self, name, joint):
        F = self.input(name)
        self.w.addLoad.Joint(F, joint, name='L' + name)
        self.power.append(('j', joint, None, F, 1))

    def spring(self, name, A, B):
        k, d, l = S('k' + name), S('d' + name), S('l' + name)
        self.w.addSpringDamper(A.handle, B.handle, k, d, l, name)
        self.power.append(('s', A, B, (k, d, l), 1))

    def tyre(self, name, C, R):
        self.w.addTyreSensorsLoads(name, C.handle, R.handle)
        F, L = self.named('F_' + name), self.named('M_' + name)
        self.power += [('f', R, C, F, 1), ('f', self.world, C, F, -1), ('t', R, C, L, 1), ('t', self.world, C, L, -1)]
        self.watch('Position', 'r_' + name, self.world, C)
        self.watch('Orientation', 'T_' + name, C, self.world)
        self.watch('Velocity', 'v_' + name, self.world, C, C)
        self.watch('AngularVelocity', 'om_' + name, self.world, C, C)

    def contact(self, name, C):
        self.w.addContactSensorsLoads(name, C.handle)
        F, L = self.named('F_' + name), self.named('M_' + name)
        self.power += [('f', C, self.world, F, 1), ('f', self.world, self.world, F, -1),
                       ('t', C, self.world, L, 1), ('t', self.world, self.world, L, -1)]
        self.watch('Position', 'r_' + name, self.world, C)
        self.watch('Orientation', 'T_' + name, self.world, C)
        self.watch('Velocity', 'v_' + name, self.world, C)
        self.watch('AngularVelocity', 'om_' + name, self.world, C)

    def cylinder(self, name, A, B):
        self.w.addHydCylSensorsLoads(name, A.handle, B.handle)
        self.power.append(('p', A, B, self.named('F_' + name), 1))
        self.watch('Distance', 'd_' + name, A, B)

    def platform(self, C, name):
        self.w.addMotionSystemSensors(C.handle, name)
        self.watch('Position', 'r_' + name, self.world, C)
        self.watch('Orientation', 'T_' + name, self.world, C)
        self.watch('Velocity', 'v_' + name, self.world, C, C)
        self.watch('AngularVelocity', 'om_' + name, self.world, C, C)
        self.watch('Acceleration', 'a_' + name, self.world, C, C)
        self.watch('AngularAcceleration', 'dom_' + name, self.world, C, C)

    def graphic(self, C, name):
        self.w.addGraphicSensors(C.handle, name)
        self.watch('Position', 'r_' + name, self.world, C)
        self.watch('Orientation', 'T_' + name, self.world, C)

    def named(self, name):
        """a symbol the library created"""
        return self.W.syms[name]

    def watch(self, kind, name, *a):
        self.sensors.append((kind, name, a, self.named(name)))

    def sensor(self, kind, name, *a, **kw):
        """a: frames (or a joint, a body)"""
        h = [x.handle if isinstance(x, Fr) else x for x in a]
        kw = {k: v.handle if isinstance(v, Fr) else v for k, v in kw.items()}
        s = getattr(self.w.addSensor, kind)(name, *h, **kw)
        self.sensors.append((kind, name, a, s))
        return s

    # equations ----------------------------------------------------------------------------------------
    def centre(self, name, bodies=None):
        m, r = self.w.addSensor.CenterofMass(name, bodies and [b.handle for b in bodies])
        bs = bodies or self.bodies
        self.sensors += [('Mass', name, bs, m), ('Centre', name, bs, r)]

    def generate(self, mode, **kw):
        r = getattr(self.w.genEquations, mode)(**kw)
        self.resolve()
        return r

    def resolve(self):
        W = self.W
        self.r, self.Q = {self.world: CZeros((3,))}, {self.world: I3}
        self.joints = []
        for b, at, f, dofs, js in self.links:
            r, R = self.place(at)
            for d, j in zip(dofs, js):
                pj = j.referenceToNew
                q, qd = expand(pj.q).e[0], expand(pj.qd).e[0]
                j.free = q.op == 'v'
                if j.free:
                    W.rates[q], W.rates[qd] = qd, pj.qdd.e[0]
                i = AX.index(d[1])
                j.axis, j.kind, j.owner = mm(R, E3(i)), d[0], b
                if d[0] == 'R':
                    R = mm(R, elem(i, pj.q.e[0]))
                else:
                    r = r + mm(R, E3(i)) * pj.q
                j.at = r
                self.joints.append(j)
            Rb = mm(R, T(f.R))
            self.r[b], self.Q[b] = r - mm(Rb, f.p), Rb

    def place(self, f):
        b = f.body
        return self.r[b] + mm(self.Q[b], f.p), mm(self.Q[b], f.R)

    def omega(self, R):
        return vee(mm(D(R), T(R)))

    def applied(self):
        """(kind, place or joint, force or torque in inertial coordinates, position)"""
        out = []
        for k, A, B, F, s in self.power:
            if k in 'ft':
                r, _ = self.place(A)
                _, R = self.place(B)
                out.append((k, A, mm(R, F) * s))
            elif k == 'j':
                out.append((k, A, F))
            else:
                ra, rb = self.place(A)[0], self.place(B)[0]
                d = ra - rb
                l = lift(t.fn('sqrt', lift(dot(d, d)).e[0]))
                if k == 's':
                    K, dd, l0 = F
                    F = -1 * K * (l - l0) - dd * lift(D(l))
                f = d * (F / l)
                out += [('f', A, f), ('f', B, -1 * f)]
        return out

    def inertial(self):
        out = []
        for b in self.bodies:
            r, R = self.r[b] + mm(self.Q[b], b.cg), self.Q[b]
            om, I = self.omega(R), mm(R, b.I, T(R))
            out.append((b, r, R, (D(D(r)) - self.gravity) * b.m, mm(I, D(om)) + cross(om, mm(I, om))))
        return out

    def residual(self):
        dyn, app, res = self.inertial(), self.applied(), []
        for j in self.joints:
            if not j.free:
                continue
            q, s = expand(j.referenceToNew.q), 0
            for b, r, R, F, L in dyn:
                s = s + dot(partial(r, q), F) + dot(vee(mm(partial(R, q), T(R))), L)
            for k, A, F in app:
                if k == 'j':
                    s = s - partial(lift(A.referenceToNew.q), q) * F
                    continue
                r, R = self.place(A)
                s = s - dot(partial(r, q) if k == 'f' else vee(mm(partial(R, q), T(R))), F)
            res.append((j, lift(s)))
        return res

    def check_motion(self):
        c = self.c
        M = c.w.syms.get('M_')
        if M is not None and len(M.dims) and M.dims[0] == M.dims[1] > 1:
            for i in range(M.dims[0]):
                for k in range(i):
                    c.eq('mass matrix %d,%d symmetric' % (i, k), at(M, i, k), at(M, k, i))
        for j, x in self.residual():
            c.true('%s has an acceleration' % j.name, lift(j.referenceToNew.qdd).e[0] in c.w.defs)
            c.eq('equation of motion of ' + j.name, x, 0)

    # sensors ------------------------------------------------------------------------------------------
    def below(self, b):
        """bodies carried by the body b, itself included"""
        out = [b]
        for x, at_, f, d, js in self.links:
            if at_.body in out:
                out.append(x)
        return out

    def expected(self, kind, a, ref=None):
        if kind in ('Position', 'Velocity', 'Acceleration'):
            A, B = a[0], a[1]
            r = self.place(B)[0] - self.place(A)[0]
            for _ in range(('Position', 'Velocity', 'Acceleration').index(kind)):
                r = D(r)
            return mm(T(self.place(a[2] if len(a) > 2 else A)[1]), r)
        if kind == 'Orientation':
            return mm(T(self.place(a[0])[1]), self.place(a[1])[1])
        if kind in ('AngularVelocity', 'AngularAcceleration'):
            x = self.omega(self.place(a[1])[1]) - self.omega(self.place(a[0])[1])
            if kind == 'AngularAcceleration':
                x = D(x)
            return mm(T(self.place(a[2] if len(a) > 2 else a[0])[1]), x)
        if kind == 'Distance':
            d = self.place(a[0])[0] - self.place(a[1])[0]
            l = lift(t.fn('sqrt', lift(dot(d, d)).e[0]))
            return CMatrix([l.e[0], lift(D(l)).e[0]])
        if kind == 'Joint':
            j = a[0].referenceToNew
            return CMatrix([j.q.e[0], j.qd.e[0]])
        if kind == 'Energy' and a[0] is self.world:
            E = 0
            for b in self.bodies:
                E = E + self.expected('Energy', (b,))
            return lift(E)
        if kind == 'Energy':
            b = a[0]
            r, R = self.r[b] + mm(self.Q[b], b.cg), self.Q[b]
            v, om = D(r), self.omega(R)
            half = lift(t.num(t.Fraction(1, 2)))
            return half * b.m * dot(v, v) + half * dot(om, mm(R, b.I, T(R), om)) - b.m * dot(self.gravity, r)
        if kind in ('ConstraintForce', 'ConstraintTorque'):
            # what the joint transmits to the body it carries, loads along the joint excluded
            j = a[0]
            sub = self.below(j.owner)
            f, l = CZeros((3,)), CZeros((3,))
            for b, r, R, F, L in self.inertial():
                if b in sub:
                    f, l = f + F, l + L + cross(r - j.at, F)
            for k, A, F in self.applied():
                if k == 'j':
                    if A.owner in sub and (A.owner is not j.owner or A is j):
                        pf, pl = (F * A.axis, CZeros((3,))) if A.kind == 'T' else (CZeros((3,)), F * A.axis)
                        # the reaction acts on the predecessor: only the driven joint itself is left over
                        if A is j:
                            f, l = f - pf, l - pl
                elif A.body in sub:
                    r = self.place(A)[0]
                    if k == 'f':
                        f, l = f - F, l - cross(r - j.at, F)
                    else:
                        l = l - F
            return f if kind == 'ConstraintForce' else l
        if kind in ('Mass', 'Centre'):
            M, r = 0, 0
            for b in a:
                M = M + b.m
                r = r + (self.r[b] + mm(self.Q[b], b.cg)) * b.m
            return lift(M) if kind == 'Mass' else r * (lift(1) / M)
        raise KeyError(kind)

    def check_sensors(self):
        for kind, name, a, s in self.sensors:
            self.c.eq(kind + ' sensor ' + name, s, self.expected(kind, a))


def at(M, i, k):
    return result((), (1, 1), [M.e[i * M.dims[1] + k]], None)
