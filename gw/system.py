"""Random equation systems over pymbs.symbolics.Graph, with their meaning."""
import random
import numpy as np
from terms import T, Gen, Bad, value, build

VAR, CONST, PARAM, INPUT, STATE, DER, USER, SENSOR, GRAPHIC = 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x100, 0x200
KIND = {VAR: 'Variable', CONST: 'Constant', PARAM: 'Parameter', INPUT: 'Input', USER: 'User_Exp', SENSOR: 'Sensor', GRAPHIC: 'Graphics'}


def dim(sh):
    return () if sh == () else (sh[0],) if sh[1] == 1 else sh


class Sys:
    def __init__(self):
        self.inputs = []      # name, shape, value
        self.params = []      # name, shape, term
        self.consts = []
        self.states = []      # name, shape, initial value
        self.vars = []        # name, kind, shape, term
        self.groups = []      # ([names], term)  several scalars from one vector
        self.ders = {}        # state -> term
        self.order = None

    def shapes(self):
        d = {n: s for n, s, _ in self.inputs + self.params + self.consts + self.states}
        d.update({n: s for n, k, s, t in self.vars})
        d['time'] = ()
        return d

    def kinds(self, k):
        return [n for n, kk, s, t in self.vars if kk == k]

    def defs(self):
        d = {n: t for n, s, t in self.params + self.consts}
        for n, k, s, t in self.vars:
            if t is not None:
                d[n] = t
        for ns, t in self.groups:
            for i, n in enumerate(ns):
                d[n] = T('elem', [t], (), (i, 0))
        return d

    def values(self, base):
        """every quantity for values of time, inputs, states"""
        defs = self.defs()
        memo = dict(base)

        def env(n):
            if n not in memo:
                memo[n] = value(defs[n], env)
                if not np.all(np.isfinite(memo[n])) or np.max(np.abs(memo[n])) > 1e6:
                    raise Bad('range')
            return memo[n]
        for n in defs:
            env(n)
        for s, t in self.ders.items():
            memo['der_' + s] = value(t, env)
            if not np.all(np.isfinite(memo['der_' + s])) or np.max(np.abs(memo['der_' + s])) > 1e6:
                raise Bad('range')
        return memo

    def show(self):
        o = ['inputs %s' % [(n, s) for n, s, _ in self.inputs], 'states %s' % [(n, s) for n, s, _ in self.states]]
        o += ['parameter %s = %s' % (n, t) for n, s, t in self.params] + ['constant %s = %s' % (n, t) for n, s, t in self.consts]
        o += ['%s %s%s = %s' % (KIND[k], n, dim(s), t) for n, k, s, t in self.vars if t is not None]
        o += ['%s = %s' % (ns, t) for ns, t in self.groups]
        o += ['der(%s) = %s' % x for x in self.ders.items()]
        return o


def rv(rng, sh):
    x = lambda: round(rng.uniform(-2, 2), 3) or 0.5
    return x() if sh == () else np.array([[x() for _ in range(sh[1])] for _ in range(sh[0])])


def num(v):
    if isinstance(v, np.ndarray):
        return T('mat', [T('num', v=float(x)) for x in v.flatten()], v.shape)
    return T('num', v=v)


def make(rng, prof):
    s = Sys()
    n = rng.choice([1, 2, 2, 3])
    qs = () if n == 1 else (n, 1)
    ops = set(prof.get('ops', ()))
    for i in range(rng.choice([0, 0, 1, 2])):
        sh = rng.choice([(), (), (2, 1), (3, 1)])
        s.inputs.append(('u%d' % i, sh, rv(rng, sh)))
    tab = {}
    for kind, lst, nm, shs, m in ((0, s.consts, 'c', [(), (), (3, 1), (2, 2)], rng.choice([0, 0, 1, 2]) if prof.get('consts', True) else 0),
                              (1, s.params, 'p', [(), (), (3, 1), (3, 3), (2, 1)], rng.choice([0, 1, 2, 3]))):
        ns = ['%s%d' % (nm, i) for i in range(m)]
        rng.shuffle(ns)
        for x in ns:
            sh = rng.choice(shs)
            t = num(rv(rng, sh)) if rng.random() < 0.75 or not tab else Gen(rng, dict(tab), ops).gen(sh, 2)
            lst.append((x, sh, t))
            tab[x] = sh
    s.states = [('q', qs, rv(rng, qs)), ('qd', qs, rv(rng, qs))]
    if prof.get('xstate') and rng.random() < 0.35:
        sh = rng.choice([(), (2, 1), (3, 1)])
        s.states.append((rng.choice(['w', 'a']), sh, rv(rng, sh)))
    tab.update({x[0]: x[1] for x in s.states})
    pure = set(tab)
    tab.update({x[0]: x[1] for x in s.inputs})
    tab['time'] = ()
    m = rng.choice(prof.get('nvars', [1, 2, 3, 4, 5, 6, 8]))
    names = ['x%d' % i for i in range(m)]
    rng.shuffle(names)
    for nm in names:
        w = rng.random()
        kind = VAR
        gt = dict(tab)
        if prof.get('recent') and rng.random() < 0.5 and s.vars:
            keep = [x[0] for x in s.vars[-3:]] + ['q', 'p0', 'c0']
            gt = {k: v for k, v in tab.items() if k in keep}
        if w < 0.25:
            kind = SENSOR
        elif w < 0.4:
            kind = GRAPHIC
        elif w < 0.45 and prof.get('userexp', True):
            kind = USER
        if kind == GRAPHIC and not prof.get('vistime'):
            gt = {k: v for k, v in gt.items() if k in pure} or {'q': qs}
        sh = rng.choice([(), (), (2, 1), (3, 1), (3, 3), (2, 2), (2, 3)]) if kind != GRAPHIC else rng.choice([(3, 1), (3, 3)])
        w = rng.random()
        g = Gen(rng, gt, ops)
        if w < 0.1:
            c = [k for k, v in gt.items() if v == sh]
            t = T('sym', sh=sh, v=rng.choice(c)) if c else g.gen(sh, 2)
            if rng.random() < 0.4:
                t = T('neg', [t], sh)
        elif w < 0.15:
            t = num(rv(rng, sh))
            if rng.random() < 0.3 and kind != GRAPHIC:
                t = T('mul', [t, T('sym', v='time')], sh)
        elif w < 0.22 and kind == VAR and rng.random() < 0.7 and m > 3:
            k = rng.choice([2, 3]) if prof.get('solve') == 'any' or n == 1 else n
            if not prof.get('solve'):
                t = g.gen(sh, 2)
            else:
                sh = (k, 1)
                B = g.gen((k, k), 1)
                A = T('add', [T('mul', [B, T('T', [B], (k, k))], (k, k)), num(np.eye(k) * 2)], (k, k))
                b = g.gen((k, 1), 2)
                if rng.random() < 0.7:
                    for x, y in (('A' + nm, A), ('b' + nm, b)):
                        s.vars.append((x, VAR, y.sh, y))
                    A, b = T('sym', sh=A.sh, v='A' + nm), T('sym', sh=b.sh, v='b' + nm)
                t = T('solve', [A, b], sh)
        elif w < 0.26 and prof.get('groups') and kind == VAR:
            k = rng.choice([2, 3])
            t = g.gen((k, 1), 2)
            ns = [nm + c for c in 'abc'[:k]]
            s.groups.append((ns, t))
            for x in ns:
                s.vars.append((x, VAR, (), None))
                tab[x] = ()
            if t.syms() <= pure:
                pure |= set(ns)
            continue
        else:
            t = g.gen(sh, rng.choice([1, 2, 3, 3, 4]))
        s.vars.append((nm, kind, sh, t))
        if kind == VAR or prof.get('sensref') and rng.random() < 0.3:
            tab[nm] = sh
            if t.syms() <= pure:
                pure.add(nm)
    for nm, sh, v in s.states:
        if nm == 'q' and rng.random() < 0.7:
            t = T('sym', sh=sh, v='qd')
        else:
            t = Gen(rng, tab, ops).gen(sh, 3)
            if rng.random() < 0.6:
                s.vars.append((nm + 'd_', VAR, sh, t)) if nm != 'q' else s.vars.append(('qp_', VAR, sh, t))
                t = T('sym', sh=sh, v=s.vars[-1][0])
        s.ders[nm] = t
    s.table = tab
    return s


def install(s, S, rng):
    """into a Graph; symbols before the equations that mention them, otherwise in random order"""
    g = S.Graph()
    V = {}
    decl = []
    for n, sh, v in s.inputs:
        decl.append((n, sh, S.VarKind.Input, v))
    for n, sh, v in s.states:
        decl.append((n, sh, S.VarKind.Variable, v))
    for n, sh, t in s.params:
        decl.append((n, sh, S.VarKind.Parameter, None))
    for n, sh, t in s.consts:
        decl.append((n, sh, S.VarKind.Constant, None))
    for n, k, sh, t in s.vars:
        decl.append((n, sh, getattr(S.VarKind, KIND[k]), None))
    rng.shuffle(decl)
    for n, sh, k, v in decl:
        iv = None
        if v is not None:
            iv = v if sh == () else S.Matrix([float(x) for x in v.flatten()]) if sh[1] == 1 else S.Matrix(v.tolist())
        V[n] = g.addVariable(n, dim(sh), k, iv)
    V['time'] = g.getVariable('time')
    sym = V.__getitem__
    eqs = [(V[n], t) for n, sh, t in s.params + s.consts] + [(V[n], t) for n, k, sh, t in s.vars if t is not None]
    eqs += [(S.der(V[n]), t) for n, t in s.ders.items()]
    eqs += [([V[n] for n in ns], t) for ns, t in s.groups]
    rng.shuffle(eqs)
    for l, t in eqs:
        g.addEquation(l, build(t, sym, S))
    return g
