"""Multibody systems with generic parameters, and Newton-Euler written down independently of the generators."""
from . import terms as t
from .gen import *
from .k01 import I3, E3


class Sys:
    def __init__(self, c):
        from pymbs.processing import Body
        from pymbs.symbolics import Graph
        self.c, self.w, self.g = c, c.w, Graph()
        self.world = Body('world', graph=self.g)
        self.r, self.R = {self.world: CZeros((3,))}, {self.world: I3}
        self.bodies, self.joints, self.loads, self.power = [], [], [], []
        self.gravity = V('gr')

    def joint(self, name, parent, kind, axis, rotated=True, offset=True):
        """a body hinged to a body (or world) at a frame in general position"""
        from pymbs.processing import Body, Joint
        p = V('p' + name) if offset else CMatrix([0, 0, 0])
        R = rot('R' + name) if rotated else I3
        f = parent.addFrame('f_' + name, p, R)
        b = Body('B' + name, S('m_' + name), V('c_' + name), Sym('I_' + name), self.g)
        z, e = CZeros((3,)), E3(axis)
        j = Joint(name, f, b, *((z, e) if kind == 'R' else (e, z)), S('q0_' + name), S('qd0_' + name), self.g)
        f.joints.append(j)
        b.joint = j
        self.w.rates[j.q.e[0]] = j.qd.e[0]
        self.w.rates[j.qd.e[0]] = j.qdd.e[0]
        r = self.r[parent] + mm(self.R[parent], p)
        R = mm(self.R[parent], R)
        if kind == 'R':
            R = mm(R, elem(axis, j.q.e[0]))
        else:
            r = r + mm(R, e) * j.q
        self.r[b], self.R[b] = r, R
        self.bodies.append(b)
        self.joints.append(j)
        return b

    def frame(self, name, body, rotated=True):
        return body.addFrame(name, V('p' + name), rot('R' + name) if rotated else I3)

    def place(self, f):
        """position and orientation of a frame of a body"""
        b = f.parentBody
        return self.r[b] + mm(self.R[b], f.p), mm(self.R[b], f.R)

    def rate(self, R, d):
        """angular velocity (or its component) belonging to the derivative d of a rotation matrix"""
        return vee(mm(d, T(R)))

    def omega(self, R):
        return self.rate(R, D(R))

    def force(self, f, F, sign=1):
        """a force acts at the origin of the frame f"""
        self.power.append(('f', f, F if sign > 0 else -lift(F)))

    def torque(self, f, L, sign=1):
        self.power.append(('t', f, L if sign > 0 else -lift(L)))

    def residual(self, extra=()):
        """one equation per joint: (inertia + gravity - loads) projected on the direction of the joint"""
        res = []
        pts = [(b, self.r[b] + mm(self.R[b], b.cg), self.R[b]) for b in self.bodies]
        dyn = []
        for b, r, R in pts:
            a = D(D(r)) - self.gravity
            om = self.omega(R)
            I = mm(R, b.inertia0, T(R))
            dyn.append((a * b.mass0, mm(I, D(om)) + cross(om, mm(I, om))))
        for j in self.joints:
            q = j.q
            s = 0
            for (b, r, R), (F, L) in zip(pts, dyn):
                s = s + dot(partial(r, q), F) + dot(self.rate(R, partial(R, q)), L)
            for k, f, F in list(self.power) + list(extra):
                r, R = self.place(f)
                s = s - dot(partial(r, q) if k == 'f' else self.rate(R, partial(R, q)), F)
            res.append(lift(s))
        return res

    def freeze(self):
        for b in self.bodies:
            b.mass0, b.inertia0 = b.mass, b.inertia

    def generator(self, kind, sensors=(), loops=(), **kw):
        from pymbs.processing.generator_recursive import Generator_Recursive
        from pymbs.processing.generator_explicit import Generator_Explicit
        G = Generator_Recursive if kind == "Recursive" else Generator_Explicit
        return G('gen', self.g, self.world, self.gravity, list(sensors), list(loops), **kw)
