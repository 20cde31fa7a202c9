"""Concrete refutation of a failed obligation.

The two value terms of an obligation are evaluated numerically (truncated Taylor series, independent
of the normal forms of sem.py) in models of the path condition.  Only a model in which every recorded
fact of the path holds and the two sides differ counts as a refutation; otherwise the obligation is
merely open.  The model is then turned into a reference term of the concrete driver, which replays it
against the real library.
"""
import math, random, z3
from fractions import Fraction as Fr
from engine import *
from sem import isz, tz, rnum, Bail

N = 4


class Bad(Exception):
    pass


class J:
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = list(c) + [0.0] * (N - len(c))

    def __add__(a, b):
        return J([x + y for x, y in zip(a.c, b.c)])

    def __neg__(a):
        return J([-x for x in a.c])

    def __sub__(a, b):
        return J([x - y for x, y in zip(a.c, b.c)])

    def __mul__(a, b):
        return J([sum(a.c[i] * b.c[k - i] for i in range(k + 1)) for k in range(N)])

    def inv(a):
        if abs(a.c[0]) < 1e-9:
            raise Bad('division by zero')
        r = [1 / a.c[0]]
        for k in range(1, N):
            r.append(-sum(a.c[i] * r[k - i] for i in range(1, k + 1)) / a.c[0])
        return J(r)

    def d(a):
        return J([(k + 1) * a.c[k + 1] for k in range(N - 1)] + [0.0])


def integ(d, c0):
    return J([c0] + [d.c[k] / (k + 1) for k in range(N - 1)])


def compose(name, a):
    """f(a) by the differential equation of f"""
    x = a.c[0]
    da = a.d()
    if name == 'abs':
        return a if x > 0 else -a if x < 0 else J([0.0])
    if name == 'sign':
        return J([float((x > 0) - (x < 0))])
    if name == 'exp':
        r = [math.exp(x)]
        for k in range(1, N):
            r.append(sum(i * a.c[i] * r[k - i] for i in range(1, k + 1)) / k)
        return J(r)
    if name == 'log':
        if x <= 0:
            raise Bad('log')
        return integ(da * a.inv(), math.log(x))
    if name in ('sin', 'cos'):
        s, c = [math.sin(x)], [math.cos(x)]
        for k in range(1, N):
            s.append(sum(i * a.c[i] * c[k - i] for i in range(1, k + 1)) / k)
            c.append(-sum(i * a.c[i] * s[k - i] for i in range(1, k + 1)) / k)
        return J(s if name == 'sin' else c)
    if name == 'tan':
        return compose('sin', a) * compose('cos', a).inv()
    if name in ('asin', 'acos'):
        if abs(x) > 0.999:
            if abs(x) <= 1 and not any(a.c[1:]):
                return J([math.asin(x) if name == 'asin' else math.acos(x)])
            raise Bad('asin')
        r = powj(J([1.0]) - a * a, -0.5)
        return integ(da * r, math.asin(x)) if name == 'asin' else integ(-(da * r), math.acos(x))
    if name == 'atan':
        return integ(da * (J([1.0]) + a * a).inv(), math.atan(x))
    raise Bad(name)


def powj(a, p):
    if abs(p - round(p)) < 1e-12:
        n = int(round(p))
        b = a if n >= 0 else a.inv()
        r = J([1.0])
        for _ in range(min(abs(n), 60)):
            r = r * b
        return r
    if a.c[0] <= 1e-9:
        raise Bad('pow')
    return compose('exp', J([float(p)]) * compose('log', a))


def atan2j(y, x):
    if abs(x.c[0]) + abs(y.c[0]) < 1e-9:
        raise Bad('atan2')
    n = (x * x + y * y).inv()
    return integ((y.d() * x - y * x.d()) * n, math.atan2(y.c[0], x.c[0]))


class M:
    def __init__(self, nd, r, c, a):
        self.nd, self.r, self.c, self.a = nd, r, c, a

    def at(self, i, j):
        return self.a[i * self.c + j]

    def map(self, f):
        return M(self.nd, self.r, self.c, [f(x) for x in self.a])


def const(x):
    return M(0, 1, 1, [J([float(x)])])


def madd(a, b):
    if a.nd == 0 and b.nd != 0:
        a, b = b, a
    if b.nd == 0:
        return a.map(lambda x: x + b.a[0])
    if (a.r, a.c) != (b.r, b.c):
        raise Bad('add')
    return M(a.nd, a.r, a.c, [x + y for x, y in zip(a.a, b.a)])


def mmul(a, b):
    if a.nd == 0:
        return b.map(lambda x: a.a[0] * x)
    if b.nd == 0:
        return a.map(lambda x: x * b.a[0])
    if a.c != b.r:
        raise Bad('mul')
    out = []
    for i in range(a.r):
        for j in range(b.c):
            s = J([0.0])
            for k in range(a.c):
                s = s + a.at(i, k) * b.at(k, j)
            out.append(s)
    return M(int(a.r > 1) + int(b.c > 1), a.r, b.c, out)


def minv(a):
    if a.nd == 0:
        return a.map(lambda x: x.inv())
    n = a.r
    if n != a.c:
        raise Bad('inv')
    A = [[a.at(i, j) for j in range(n)] + [J([1.0 if i == j else 0.0]) for j in range(n)] for i in range(n)]
    for k in range(n):
        p = max(range(k, n), key=lambda i: abs(A[i][k].c[0]))
        if abs(A[p][k].c[0]) < 1e-6:
            raise Bad('singular')
        A[k], A[p] = A[p], A[k]
        iv = A[k][k].inv()
        A[k] = [x * iv for x in A[k]]
        for i in range(n):
            if i != k:
                f = A[i][k]
                A[i] = [x - f * y for x, y in zip(A[i], A[k])]
    return M(a.nd, n, n, [A[i][n + j] for i in range(n) for j in range(n)])


# ------------------------------------------------------------------ z3 terms under a model, with the real meaning of the functions
FN = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'sqrt': math.sqrt, 'atan2': math.atan2,
      'abs': abs, 'sign': lambda x: float((x > 0) - (x < 0)), 'fabs': abs}


class Model:
    def __init__(self, m):
        self.m = m
        self.cache = {}

    def ev(self, t):
        if not isz(t):
            return t
        k = t.get_id()
        if k not in self.cache:
            self.cache[k] = (self._ev(t), t)
        return self.cache[k][0]

    def _ev(self, t):
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return Fr(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        d = t.decl()
        k = d.kind()
        ch = t.children()
        if k == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                if d.name() == 'PI':
                    return math.pi
                v = self.m.eval(t, model_completion=True)
                if z3.is_algebraic_value(v):
                    v = v.approx(30)
                return self._ev(v)
            a = [self.ev(c) for c in ch]
            if d.name() == 'numel':
                return a[0] * a[1]
            n = d.name()
            n = n.split('_')[-1] if n.split('_')[-1] in FN or n.split('_')[-1] == 'pow' else n
            try:
                if n == 'pow':
                    r = float(a[0]) ** float(a[1])
                    if isinstance(r, complex):
                        raise Bad('pow')
                    return r
                if n in FN:
                    return FN[n](*[float(x) for x in a])
            except (ValueError, ZeroDivisionError, OverflowError):
                raise Bad('domain')
            raise Bad('function ' + d.name())
        if k == z3.Z3_OP_ITE:
            return self.ev(ch[1]) if self.ev(ch[0]) else self.ev(ch[2])
        if k == z3.Z3_OP_AND:
            return all(self.ev(c) for c in ch)
        if k == z3.Z3_OP_OR:
            return any(self.ev(c) for c in ch)
        if k == z3.Z3_OP_IMPLIES:
            return (not self.ev(ch[0])) or self.ev(ch[1])
        a = [self.ev(c) for c in ch]
        if k == z3.Z3_OP_NOT:
            return not a[0]
        if k == z3.Z3_OP_EQ or k == z3.Z3_OP_IFF:
            return close(a[0], a[1])
        if k == z3.Z3_OP_DISTINCT:
            return not close(a[0], a[1])
        if k == z3.Z3_OP_LE:
            return a[0] <= a[1] or close(a[0], a[1])
        if k == z3.Z3_OP_GE:
            return a[0] >= a[1] or close(a[0], a[1])
        if k == z3.Z3_OP_LT:
            return a[0] < a[1]
        if k == z3.Z3_OP_GT:
            return a[0] > a[1]
        if k == z3.Z3_OP_ADD:
            return sum(a)
        if k == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r = r - x
            return r
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_MUL:
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        try:
            if k == z3.Z3_OP_DIV:
                return Fr(a[0]) / Fr(a[1]) if not isinstance(a[0], float) and not isinstance(a[1], float) else a[0] / a[1]
            if k == z3.Z3_OP_IDIV:
                return a[0] // a[1]
            if k == z3.Z3_OP_MOD:
                return a[0] % a[1]
        except ZeroDivisionError:
            raise Bad('division')
        if k == z3.Z3_OP_TO_REAL:
            return a[0]
        if k == z3.Z3_OP_TO_INT:
            return math.floor(a[0])
        if k == z3.Z3_OP_IS_INT:
            return close(a[0], round(a[0]))
        if k == z3.Z3_OP_POWER:
            return float(a[0]) ** float(a[1])
        raise Bad('operator %s' % t.decl())


def close(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, float) or isinstance(b, float):
        a, b = float(a), float(b)
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    return a == b


def consts_of(cs):
    seen, out = set(), {}
    todo = list(cs)
    numel = []
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[t.get_id()] = t
        if z3.is_app(t) and t.decl().name() == 'numel':
            numel.append(t)
        todo += t.children()
    return list(out.values()), numel


def models(e, extra=(), tries=6, seed=1):
    """models of the path condition with small dimensions and varied numbers"""
    rng = random.Random(seed)
    s = z3.Solver()
    s.set('timeout', 3000)
    for a in e.solver.assertions():
        s.add(a)
    for c in extra:
        s.add(c)
    dims = []
    for o in e.objs:
        dims += [x for x in o.shape.t()[1:] if isz(x)]
    cs, numel = consts_of(list(s.assertions()) + dims)
    for n in numel:
        s.add(n == n.arg(0) * n.arg(1))
    for lim in (3, 4, 7):
        s.push()
        for d in dims:
            s.add(d <= lim)
        if s.check() == z3.sat:
            break
        s.pop()
    else:
        return
    for k in range(tries):
        s.push()
        rng.shuffle(cs)
        for c in cs:
            if z3.is_bool(c) or c.decl().name() == 'PI':
                continue
            if '.d' in c.decl().name() or '.nd' in c.decl().name():
                v = rng.choice([2, 3, 3, 1])
            elif z3.is_int(c):
                v = rng.choice([2, 3, -2, 1, 0, -1, 5])
            else:
                v = rng.choice([2, 3, Fr(1, 2), Fr(-5, 4), Fr(7, 4), -3, Fr(1, 4)])
            s.push()
            s.add(c == (v if z3.is_int(c) else z3.RealVal(str(v))))
            if s.check() != z3.sat:
                s.pop()
        if s.check() == z3.sat:
            yield Model(s.model())
        while s.num_scopes() > 1:
            s.pop()


class Eval:
    def __init__(self, e, model, seed):
        self.e, self.m = e, model
        self.rng = random.Random(seed)
        self.leaf = {}
        self.cache = {}
        self.q = Q(e)
        self.wrt = None

    def rnd(self):
        x = self.rng.uniform(-0.9, 0.9)
        return x + (0.2 if x > 0 else -0.2)

    def obj(self, o, sub):
        o = self.e.rep(o)
        k = (o.id, sub)
        if k in self.cache:
            if self.cache[k] is None:
                raise Bad('cycle')
            return self.cache[k]
        self.cache[k] = None
        t = self.q.unfold(o)
        mo = self.e.ctx.matclass(self.e, o) if t is None else None
        if mo is not None and self.e.rep(mo) is o:
            d = self.shape(o.shape)
            v = M(*d, [self.ev(('obj', self.e.ctx.matget(self.e, mo, i, j)), sub).a[0] for i in range(d[1]) for j in range(d[2])])
        elif t is not None:
            v = self.ev(t, sub)
        else:
            v = self.leafval(o, sub)
        d = self.shape(o.shape)
        if (v.r, v.c) != d[1:]:
            if v.nd == 0 and not any(v.a[0].c):
                v = M(*d, [J([0.0])] * (d[1] * d[2]))
            else:
                raise Bad('shape of %s' % o)
        v = M(d[0], v.r, v.c, v.a)
        self.cache[k] = v
        return v

    def shape(self, s):
        return tuple(int(self.m.ev(x)) for x in s.t())

    def leafval(self, o, sub):
        ctx = self.e.ctx
        if sub and ctx.SUB is not None:
            if self.e.rep(ctx.SUB[0]) is o:
                return self.obj(ctx.SUB[1], False)
            if o.types == {'Symbol'}:
                return self.obj(o, False)
        nd, r, c = self.shape(o.shape)
        w = ctx.WRT
        isw = w is not None and w != 't' and self.e.rep(w[1]) is o
        out = []
        for i in range(r):
            for j in range(c):
                x = self.rnd() + (2.0 if r == c and r > 1 and i == j else 0.0)
                if isw:
                    out.append(J([x, 1.0]))
                elif o.facts.get('const') or (w != 't' and o.types == {'Symbol'}):
                    out.append(J([x]))
                else:
                    out.append(J([x] + [self.rng.uniform(-1, 1) for _ in range(N - 1)]))
        return M(nd, r, c, out)

    def ev(self, t, sub=False):
        k = t[0]
        ev = lambda x: self.ev(x, sub)
        if k == 'obj':
            return self.obj(t[1], sub)
        if k == 'num':
            return const(float(self.m.ev(t[1])))
        if k == 'zero':
            d = tuple(int(self.m.ev(x)) for x in t[1])
            return M(*d, [J([0.0])] * (d[1] * d[2]))
        if k == 'eye':
            d = tuple(int(self.m.ev(x)) for x in t[1])
            return M(*d, [J([1.0 if i == j else 0.0]) for i in range(d[1]) for j in range(d[2])])
        if k == 'add':
            r = None
            for p in t[1]:
                v = ev(p)
                r = v if r is None else madd(r, v)
            return r
        if k == 'neg':
            return ev(t[1]).map(lambda x: -x)
        if k == 'mul':
            return mmul(ev(t[1]), ev(t[2]))
        if k == 'inv':
            return minv(ev(t[1]))
        if k == 'pow':
            a, p = ev(t[1]), ev(t[2]).a[0].c[0]
            if a.nd == 0:
                return a.map(lambda x: powj(x, p))
            if abs(p - round(p)) > 1e-9:
                raise Bad('matrix power')
            n = int(round(p))
            b = minv(a) if n < 0 else a
            r = M(a.nd, a.r, a.c, [J([1.0 if i == j else 0.0]) for i in range(a.r) for j in range(a.c)])
            for _ in range(min(abs(n), 20)):
                r = mmul(r, b)
            return M(a.nd, a.r, a.c, r.a)
        if k == 'fn':
            if t[1] == 'atan2':
                return M(0, 1, 1, [atan2j(ev(t[2][0]).a[0], ev(t[2][1]).a[0])])
            return ev(t[2][0]).map(lambda x: compose(t[1], x))
        if k == 'T':
            a = ev(t[1])
            return M(a.nd, a.c, a.r, [a.at(j, i) for i in range(a.c) for j in range(a.r)])
        if k == 'el':
            a = ev(t[1])
            if a.nd == 0:
                return a
            i, j = int(self.m.ev(t[2])), int(self.m.ev(t[3]))
            if not (0 <= i < a.r and 0 <= j < a.c):
                raise Bad('index')
            return M(0, 1, 1, [a.at(i, j)])
        if k == 'sca':
            return M(0, 1, 1, [ev(t[1]).a[0]])
        if k == 'ifc':
            c = ev(t[1])
            return ev(t[2]) if c.a[0].c[0] != 0 else ev(t[3])
        if k == 'cmp':
            a, b = ev(t[2]).a[0].c[0], ev(t[3]).a[0].c[0]
            if close(a, b) and a != b:
                raise Bad('cmp')
            return const(1.0 if (a < b if t[1] == '<' else a > b if t[1] == '>' else a == b) else 0.0)
        if k == 'skew':
            a = ev(t[1])
            if a.r * a.c != 3:
                raise Bad('skew')
            x, y, z = a.a
            O = J([0.0])
            return M(2, 3, 3, [O, -z, y, z, O, -x, -y, x, O])
        if k == 'D':
            w = t[2]
            if w != 't' and self.e.ctx.WRT != w:
                raise Bad('derivative')
            if w == 't' and self.e.ctx.WRT not in ('t', None):
                raise Bad('derivative')
            if self.wrt is None:
                self.wrt = w
            return ev(t[1]).map(lambda x: x.d())
        if k == 'sub':
            if sub:
                raise Bad('sub')
            return self.ev(t[1], True)
        if k == 'mat':
            return self.matval(t[1].o, sub)
        raise Bad('term ' + k)

    def matval(self, o, sub):
        d = self.shape(o.shape)
        return M(*d, [self.ev(('obj', self.e.ctx.matget(self.e, o, i, j)), sub).a[0] for i in range(d[1]) for j in range(d[2])])


def differs(a, b, order):
    if a.r * a.c != b.r * b.c:
        return True
    for x, y in zip(a.a, b.a):
        for u, v in zip(x.c[:order], y.c[:order]):
            if not (math.isfinite(u) and math.isfinite(v)):
                raise Bad('not finite')
            if abs(u - v) > 1e-6 * max(1.0, abs(u), abs(v)):
                return True
    return False


def holds(e, ev):
    """every fact of the path holds in this model"""
    for a in e.solver.assertions():
        if not ev.m.ev(a):
            return False
    for a, b in e.eqs:
        try:
            if differs(ev.ev(a), ev.ev(b), 1):
                return False
        except Bad:
            return False
    return True


def refute(e, got, want, tries=8, stat=None):
    """(model, evaluation) in which the two values differ, or None"""
    n = 0
    stat = stat if stat is not None else {}
    stat['agree'] = 0
    for m in models(e, tries=tries):
        for s in range(3):
            n += 1
            ev = Eval(e, m, 17 * n + 3)
            try:
                a, b = ev.ev(got), ev.ev(want)
                if not holds(e, ev):
                    continue
                if differs(a, b, 1):
                    return m, 'got %s want %s' % ([round(x.c[0], 6) for x in a.a], [round(x.c[0], 6) for x in b.a])
                stat['agree'] += 1
                stat.setdefault('models', []).append(m)
            except (Bad, Bail, Unsupported, OverflowError, ZeroDivisionError, RecursionError):
                continue
    return None


def refute_cond(e, c, tries=4):
    """a model of the path in which the condition c does not hold"""
    extra = [] if isinstance(c, bool) else [z3.Not(c)]
    n = 0
    for m in models(e, extra, tries=tries):
        for s in range(2):
            n += 1
            ev = Eval(e, m, 31 * n + 5)
            try:
                if holds(e, ev) and (isinstance(c, bool) or not m.ev(c)):
                    return m
            except (Bad, Bail, Unsupported, OverflowError, ZeroDivisionError, RecursionError):
                continue
    return None


# ------------------------------------------------------------------ reference terms for the driver
OPS = {'Sin': 'sin', 'Cos': 'cos', 'Tan': 'tan', 'Asin': 'asin', 'Acos': 'acos', 'Atan': 'atan', 'Abs': 'abs', 'Sign': 'sign', 'Neg': 'neg', 'Transpose': 'transpose',
       'Skew': 'skew', 'Scalar': 'scalar', 'Inverse': 'inverse', 'Der': 'der', 'Atan2': 'atan2', 'Less': '<', 'Greater': '>', 'Equal': '==', 'Outer': 'outer', 'Solve': 'solve'}


class Terms:
    def __init__(self, e, m):
        self.e, self.m = e, m
        self.names = {}
        self.depth = 0

    def sx(self, op, raw, v=0, i=0, j=0, sh=(0, 1, 1), name='-', kids=()):
        return '( %s %d %r %d %d %d %d %d %s %d %s )' % (op, raw, float(v), i, j, sh[0], sh[1], sh[2], name, len(kids), ' '.join(kids))

    def shape(self, s):
        return tuple(int(self.m.ev(x)) for x in s.t())

    def sym(self, o):
        r = self.e.rep(o)
        n = self.names.setdefault(r.id, 'x%d' % (len(self.names) + 1))
        return self.sx('sym', 1 if r.facts.get('const') else 0, sh=self.shape(o.shape), name=n)

    def num(self, v, ty=None):
        v = Fr(v) if not isinstance(v, float) else v
        if ty == 'Real' or v != int(v):
            return self.sx('real', 1, v=v)
        return self.sx('int', 1, v=int(v))

    def build(self, o, raw=1):
        self.depth += 1
        if self.depth > 60:
            raise Bad('depth')
        r = self.e.rep(o)
        ty = o.ty()
        sh = self.shape(o.shape)
        if ty is None and r.term is not None:
            if r.term[0] == 'num' and o.types & {'Int', 'Real'}:
                return self.num(self.m.ev(r.term[1]), 'Real' if 'Int' not in o.types else None)
            if r.term[0] == 'zero' and 'Zero' in o.types:
                return self.sx('zero', 1, sh=sh)
        if ty is None:
            if 'Symbol' in o.types:
                return self.sym(o)
            if 'Int' in o.types:
                return self.num(2)
            if 'Sin' in o.types:
                return self.sx('sin', 1, sh=sh, kids=[self.sym(o)])
            if 'Add' in o.types:
                s = self.sym(o)
                return self.sx('+', 1, sh=sh, kids=[s, self.sx('int', 1, v=1)])
            if 'Mul' in o.types:
                return self.sx('*', 1, sh=sh, kids=[self.sx('int', 1, v=2), self.sym(o)])
            raise Bad('type')
        F = lambda n: self.e.getfield(o, n)
        if ty == 'Symbol':
            return self.sym(o)
        if ty in ('Int', 'Real'):
            v = o.fields.get('m_value')
            return self.num(self.m.ev(v), ty)
        if ty == 'Zero':
            return self.sx('zero', 1, sh=sh)
        if ty == 'Eye':
            return self.sx('eye', 1, sh=sh)
        if ty in ('Atan2', 'Less', 'Greater', 'Equal', 'Outer', 'Solve'):
            return self.sx(OPS[ty], raw, sh=sh, kids=[self.build(F('m_arg1')), self.build(F('m_arg2'))])
        if ty in OPS:
            return self.sx(OPS[ty], raw, sh=sh, kids=[self.build(F('m_arg'))])
        if ty == 'Pow':
            x = F('m_arg2')
            t = self.e.rep(x).term
            v = self.m.ev(t[1]) if t is not None and t[0] == 'num' else self.m.ev(x.fields['m_value'])
            isint = 'Int' in x.types and v == int(v)
            return self.sx('pow', raw, v=v, i=1 if isint else 0, sh=sh, kids=[self.build(F('m_arg1'))])
        if ty in ('Add', 'Mul'):
            ks = []
            for x in F('m_args').flat():
                if isinstance(x, Opq):
                    if x.conc is not None:
                        ks += [self.build(y) for y in x.conc]
                        continue
                    n = int(self.m.ev(x.n))
                    if n > 6:
                        raise Bad('length')
                    at = {int(self.m.ev(zi(ix))): y for ix, y in getattr(x, 'ix', {}).values()}
                    for k in range(n):
                        if k in at:
                            ks.append(self.build(at[k]))
                        elif ty == 'Add' or sh == (0, 1, 1):
                            ks.append(self.sx('sym', 0, sh=sh, name='e%d_%d' % (o.id, k)))
                        else:
                            raise Bad('product')
                else:
                    ks.append(self.build(x))
            return self.sx('sum' if ty == 'Add' else 'prod', raw, sh=sh, kids=ks)
        if ty == 'If':
            return self.sx('if', raw, sh=sh, kids=[self.build(x) for x in F('m_args').flat()])
        if ty == 'Element':
            return self.sx('elem', raw, i=int(self.m.ev(F('m_row'))), j=int(self.m.ev(F('m_col'))), sh=sh, kids=[self.build(F('m_args').flat()[0])])
        if ty == 'Matrix':
            return self.sx('symm' if o.sym else 'mat', 1, sh=sh, kids=[self.build(x) for x in F('m_args').flat()])
        raise Bad('type ' + str(ty))


def driver_case(e, key, this, vals, m):
    """(mode, reference term) replaying this model through the real function, or None"""
    t = Terms(e, m)
    try:
        if this is not None and isinstance(this, Obj):
            if '::simplify(' in key:
                return ('simp', t.build(this))
            if '::der()' in key:
                return ('der', t.build(this))
            if '::der(' in key:
                s = t.build(this)
                return ('pder', s, t.names.get(e.rep(vals[0]).id) or next((n for n in t.names.values()), 'x0'))
            return None
        if '::New(' in key:
            c = key.split('::')[0]
            n = lambda i: int(m.ev(vals[i]))
            if c in ('Int', 'Real'):
                return ('build', t.sx(c.lower(), 0, v=m.ev(vals[0])))
            if c == 'Element':
                return ('build', t.sx('elem', 0, i=n(1), j=n(2), kids=[t.build(vals[0])]))
            if c == 'Pow':
                x = vals[1]
                tt = e.rep(x).term
                v = m.ev(tt[1]) if tt is not None and tt[0] == 'num' else m.ev(x.fields['m_value'])
                return ('build', t.sx('pow', 0, v=v, i=1 if 'Int' in x.types and v == int(v) else 0, kids=[t.build(vals[0])]))
            op = OPS.get(c) or {'Add': '+', 'Mul': '*', 'If': 'if'}.get(c)
            if op:
                return ('build', t.sx(op, 0, kids=[t.build(v) for v in vals]))
        if key.startswith('operator') and '==' not in key and '!=' not in key:
            op = key[8]
            ks = [t.build(v) if isinstance(v, Obj) else t.num(m.ev(v), 'Real' if 'double' in key else 'Int') for v in vals]
            if op == '-' and len(ks) == 1:
                return ('build', t.sx('neg', 0, i=1, kids=ks))
            return ('build', t.sx(op, 0, i=1, kids=ks))
        if key.startswith('operator=='):
            return ('eq', t.build(vals[0]), t.build(vals[1]))
        if key.startswith('Util::div'):
            return ('build', t.sx('/', 0, kids=[t.build(v) for v in vals]))
        if key.startswith('Util::sqrt'):
            return ('build', t.sx('sqrt', 0, kids=[t.build(v) for v in vals]))
    except (Bad, Unsupported, Bail, KeyError, AttributeError, TypeError, OverflowError, ValueError, PathEnd):
        return None
    return None
