"""Scalar terms over the reals and the two ways they are evaluated:
exactly in the field GF(p), p = 2^61 - 1, at random points (decides identities between
algebraic functions, see decide), and in floating point (counterexamples)."""
import math
import random
from fractions import Fraction

P = (1 << 61) - 1          # prime, 3 mod 4


class T:
    __slots__ = ('op', 'a', '_h')
    table = {}

    def __repr__(s):
        return show(s)

    def __hash__(s):
        return s._h

    def __eq__(s, o):
        return s is o


def mk(op, *a):
    k = (op,) + tuple(id(x) if isinstance(x, T) else ('c', x) for x in a)
    t = T.table.get(k)
    if t is None:
        t = T()
        t.op, t.a, t._h = op, a, len(T.table)
        T.table[k] = t
    return t


def num(x):
    if isinstance(x, T):
        return x
    if isinstance(x, float):
        if math.isinf(x):
            return mk('v', 'inf') if x > 0 else neg(mk('v', 'inf'))
        for k in (1, 2, 4, -1, -2, -4):
            if x == math.pi / k:
                return mk('pi') if k == 1 else mul(num(Fraction(1, k)), mk('pi'))
        if x == 2 * math.pi:
            return mul(num(2), mk('pi'))
    return mk('n', Fraction(x))


def atom(name):
    return mk('v', name)


def unknown(name, *coords):
    """an unknown smooth function of the coordinates"""
    return mk('u', name, (0,) * len(coords), *coords)


def isn(t, v=None):
    return t.op == 'n' and (v is None or t.a[0] == v)


def add(x, y):
    x, y = num(x), num(y)
    if isn(x) and isn(y):
        return num(x.a[0] + y.a[0])
    if isn(x, 0):
        return y
    if isn(y, 0):
        return x
    return mk('+', x, y)


def neg(x):
    x = num(x)
    if isn(x):
        return num(-x.a[0])
    if x.op == 'neg':
        return x.a[0]
    return mk('neg', x)


def sub(x, y):
    return add(x, neg(y))


def mul(x, y):
    x, y = num(x), num(y)
    if isn(x) and isn(y):
        return num(x.a[0] * y.a[0])
    for u, v in ((x, y), (y, x)):
        if isn(u, 0):
            return u
        if isn(u, 1):
            return v
        if isn(u, -1):
            return neg(v)
    return mk('*', x, y)


def div(x, y):
    x, y = num(x), num(y)
    if isn(y) and y.a[0] != 0:
        return mul(x, num(1 / y.a[0]))
    if isn(x, 0):
        return x
    return mk('/', x, y)


def power(x, n):
    x, n = num(x), num(n)
    if isn(n):
        e = n.a[0]
        if e == 0:
            return num(1)
        if e == 1:
            return x
        if isn(x) and e.denominator == 1 and x.a[0] != 0:
            return num(x.a[0] ** int(e))
        if e.denominator == 1:
            return mk('^', x, int(e))
        if e.denominator == 2:
            if isn(x) and x.a[0] >= 0:
                r = x.a[0]
                u, v = math.isqrt(r.numerator), math.isqrt(r.denominator)
                if u * u == r.numerator and v * v == r.denominator:
                    return power(num(Fraction(u, v)), e.numerator)
            s = mk('sqrt', x)
            return s if e.numerator == 1 else mk('^', s, e.numerator)
    return mk('pow', x, n)


def fn(f, *a):
    a = [num(x) for x in a]
    if all(isn(x, 0) for x in a):
        if f in ('sin', 'tan', 'asin', 'atan', 'abs', 'sign'):
            return num(0)
        if f == 'cos':
            return num(1)
    if f == 'abs' and isn(a[0]):
        return num(abs(a[0].a[0]))
    if f == 'sign' and isn(a[0]):
        return num((a[0].a[0] > 0) - (a[0].a[0] < 0))
    return mk(f, *a)


def show(t, d=0):
    if t.op == 'n':
        return str(t.a[0])
    if t.op == 'v':
        return str(t.a[0])
    if d > 6:
        return '...'
    if t.op in ('+', '*', '/'):
        return '(%s%s%s)' % (show(t.a[0], d + 1), t.op, show(t.a[1], d + 1))
    if t.op == 'neg':
        return '-' + show(t.a[0], d + 1)
    if t.op == '^':
        return '%s^%s' % (show(t.a[0], d + 1), t.a[1])
    return '%s(%s)' % (t.op, ','.join(show(x, d + 1) for x in t.a))


def diff(t, w, memo=None):
    """derivative along w: a dict atom -> derivative term (atoms not listed are constants)"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    o, a = t.op, t.a
    if o in ('n', 'pi'):
        r = num(0)
    elif o == 'v':
        r = num(w.get(t, 0))
    elif o in ('sign',):
        r = num(0)
    else:
        d = [diff(x, w, memo) if isinstance(x, T) else None for x in a]
        if o == '+':
            r = add(*d)
        elif o == 'neg':
            r = neg(d[0])
        elif o == '*':
            r = add(mul(d[0], a[1]), mul(a[0], d[1]))
        elif o == '/':
            r = sub(div(d[0], a[1]), div(mul(t, d[1]), a[1]))
        elif o == '^':
            r = mul(mul(num(a[1]), power(a[0], a[1] - 1)), d[0])
        elif o == 'sqrt':
            r = num(0) if isn(d[0], 0) else div(d[0], mul(num(2), t))
        elif o == 'sin':
            r = mul(fn('cos', a[0]), d[0])
        elif o == 'cos':
            r = neg(mul(fn('sin', a[0]), d[0]))
        elif o == 'tan':
            r = num(0) if isn(d[0], 0) else div(d[0], power(fn('cos', a[0]), 2))
        elif o in ('asin', 'acos'):
            r = num(0) if isn(d[0], 0) else div(d[0], power(sub(num(1), power(a[0], 2)), Fraction(1, 2)))
            r = neg(r) if o == 'acos' else r
        elif o == 'atan':
            r = num(0) if isn(d[0], 0) else div(d[0], add(num(1), power(a[0], 2)))
        elif o == 'atan2':
            y, x = a
            n = sub(mul(d[0], x), mul(y, d[1]))
            r = num(0) if isn(n, 0) else div(n, add(power(x, 2), power(y, 2)))
        elif o == 'abs':
            r = mul(fn('sign', a[0]), d[0])
        elif o == 'u':
            r = num(0)
            for k in range(2, len(a)):
                if not isn(d[k], 0):
                    n = tuple(x + (i == k - 2) for i, x in enumerate(a[1]))
                    r = add(r, mul(d[k], mk('u', a[0], n, *a[2:])))
        else:
            if all(x is None or isn(x, 0) for x in d):
                r = num(0)
            else:
                raise ValueError('derivative of ' + o)
    memo[t] = r
    return r


def atoms(ts):
    seen, out, st = set(), set(), list(ts)
    while st:
        t = st.pop()
        if t in seen:
            continue
        seen.add(t)
        if t.op == 'v':
            out.add(t)
        st.extend(x for x in t.a if isinstance(x, T))
    return out


class Retry(Exception):
    """the point lies outside the domain (no square root, division by zero): draw another"""


def legendre(x):
    return pow(x, (P - 1) // 2, P)


def qsqrt(x):
    x %= P
    if x == 0:
        return 0
    if legendre(x) != 1:
        raise Retry('root')
    r = pow(x, (P + 1) // 4, P)
    return r if legendre(r) == 1 else P - r


def inv(x):
    if x % P == 0:
        raise Retry('division')
    return pow(x, P - 2, P)


class Field:
    """one random point of GF(p). "Positive" means: is a quadratic residue. As p = 3 mod 4 exactly one
    of x, -x is positive and products of positive elements are positive, so sqrt, abs and sign keep
    their multiplicative laws. Angles are points of the unit circle."""

    def __init__(self, rng, vals=None, angs=None, defs=None, positive=()):
        self.rng, self.defs = rng, defs or {}
        self.vals, self.angs = dict(vals or {}), dict(angs or {})
        self.mv, self.ma = {}, {}
        self.positive = set(positive)

    def circle(self):
        while True:
            u = self.rng.randrange(1, P)
            d = (1 + u * u) % P
            if d:
                i = inv(d)
                return (1 - u * u) * i % P, 2 * u * i % P

    def val(self, t):
        r = self.mv.get(t)
        if r is None:
            st = [t]
            while st:
                x = st[-1]
                if x in self.mv:
                    st.pop()
                    continue
                if x.op in ('sin', 'cos', 'tan'):
                    ks = []
                elif x.op == 'v' and x in self.defs:
                    ks = [self.defs[x]]
                else:
                    ks = [k for k in x.a if isinstance(k, T)]
                ks = [k for k in ks if k not in self.mv]
                if ks:
                    st.extend(ks)
                    continue
                self.mv[x] = self.one(x) % P
                st.pop()
            r = self.mv[t]
        return r

    def one(self, t):
        o, a = t.op, t.a
        m = self.mv
        if o == 'n':
            return a[0].numerator * inv(a[0].denominator)
        if o == 'v':
            if t in self.defs:
                return m[self.defs[t]]
            if t not in self.vals:
                x = self.rng.randrange(1, P)
                self.vals[t] = x * x % P if t in self.positive else x
            return self.vals[t]
        if o == '+':
            return m[a[0]] + m[a[1]]
        if o == '*':
            return m[a[0]] * m[a[1]]
        if o == 'neg':
            return -m[a[0]]
        if o == '/':
            return m[a[0]] * inv(m[a[1]])
        if o == '^':
            return pow(m[a[0]], a[1], P) if a[1] >= 0 else pow(inv(m[a[0]]), -a[1], P)
        if o == 'sqrt':
            return qsqrt(m[a[0]])
        if o == 'abs':
            x = m[a[0]] % P
            return x if x == 0 or legendre(x) == 1 else P - x
        if o == 'sign':
            x = m[a[0]] % P
            return 0 if x == 0 else 1 if legendre(x) == 1 else P - 1
        if o in ('sin', 'cos', 'tan'):
            c, s = self.ang(a[0])
            return s if o == 'sin' else c if o == 'cos' else s * inv(c)
        if o == 'pi':
            if 'pi' not in self.vals:
                self.vals['pi'] = self.rng.randrange(1, P)
            return self.vals['pi']
        if o == 'u':
            k = ('u', a[0], a[1]) + tuple(m[x] for x in a[2:])
            if k not in self.vals:
                self.vals[k] = self.rng.randrange(1, P)
            return self.vals[k]
        if o == 'solve':
            return gauss(self, a, m, lambda x: x % P, lambda x: inv(x), lambda x: x % P == 0)
        if o in ('asin', 'acos', 'atan', 'atan2', 'pow'):
            # the angle itself as a number: a fresh value, the same for the same argument
            k = (o,) + tuple(m[x] for x in a)
            if k not in self.vals:
                self.vals[k] = self.rng.randrange(1, P)
            return self.vals[k]
        raise ValueError(o)

    def ang(self, t):
        r = self.ma.get(t)
        if r is None:
            r = self.ma[t] = self.ang1(t)
        return r

    def ang1(self, t):
        o, a = t.op, t.a
        if o == 'n' and a[0] == 0:
            return 1, 0
        if o == 'pi':
            return P - 1, 0
        if o == 'v':
            if t in self.defs:
                return self.ang(self.defs[t])
            if t not in self.angs:
                self.angs[t] = self.circle()
            return self.angs[t]
        if o == '+':
            (c, s), (d, u) = self.ang(a[0]), self.ang(a[1])
            return (c * d - s * u) % P, (s * d + c * u) % P
        if o == 'neg':
            c, s = self.ang(a[0])
            return c, -s % P
        if o == '*':
            for k, y in ((a[0], a[1]), (a[1], a[0])):
                if isn(k):
                    f = k.a[0]
                    if y.op == 'pi' and f.denominator in (1, 2):
                        n = int(2 * f) % 4
                        return [(1, 0), (0, 1), (P - 1, 0), (0, P - 1)][n]
                    if f.denominator != 1:
                        if y.op == '*' or y.op == '/':
                            continue
                        raise ValueError('fraction of an angle')
                    c, s = self.ang(y)
                    n = int(f)
                    if n < 0:
                        n, s = -n, -s
                    rc, rs = 1, 0
                    for _ in range(n):
                        rc, rs = (rc * c - rs * s) % P, (rs * c + rc * s) % P
                    return rc % P, rs % P
            # a factor that is +1 or -1
            for k, y in ((a[0], a[1]), (a[1], a[0])):
                if not angular(k, self.defs):
                    v = self.val(k) % P
                    if v == 1 or v == P - 1:
                        c, s = self.ang(y)
                        return (c, s) if v == 1 else (c, -s % P)
        if o in ('asin', 'acos'):
            x = self.val(a[0])
            y = qsqrt(1 - x * x)
            return (y, x) if o == 'asin' else (x, y)
        if o == 'atan':
            x = self.val(a[0])
            c = inv(qsqrt(1 + x * x))
            return c, x * c % P
        if o == 'atan2':
            y, x = self.val(a[0]), self.val(a[1])
            r = inv(qsqrt(x * x + y * y))
            return x * r % P, y * r % P
        # any other term as an argument of sin/cos: the same circle point for the same value
        k = ('c', self.val(t))
        if k not in self.angs:
            self.angs[k] = self.circle()
        return self.angs[k]


def angular(t, defs, d=0):
    if t.op in ('asin', 'acos', 'atan', 'atan2'):
        return True
    if t.op == 'v':
        return t in defs and angular(defs[t], defs)
    if t.op in ('+', 'neg', '*'):
        return any(angular(x, defs) for x in t.a if isinstance(x, T))
    return False


def gauss(f, a, m, norm, inv, zero):
    """component a[0] of the solution of the a[1] x a[1] system with the entries a[2:] (matrix, right side)"""
    n = a[1]
    k = ('solve', n) + a[2:]
    if k not in f.vals:
        e = [m[x] for x in a[2:]]
        A = [e[i * n:(i + 1) * n] + [e[n * n + i]] for i in range(n)]
        for i in range(n):
            j = max(range(i, n), key=lambda j: (not zero(A[j][i]), abs(A[j][i])))
            if zero(A[j][i]):
                raise Retry
            A[i], A[j] = A[j], A[i]
            p = inv(A[i][i])
            A[i] = [norm(x * p) for x in A[i]]
            for j in range(n):
                if j != i and not zero(A[j][i]):
                    q = A[j][i]
                    A[j] = [norm(x - q * y) for x, y in zip(A[j], A[i])]
        f.vals[k] = [r[n] for r in A]
    return f.vals[k][a[0]]


class Real:
    """floating point evaluation at a given or random point"""

    def __init__(self, rng, vals=None, defs=None, positive=()):
        self.rng, self.vals, self.defs, self.m, self.positive = rng, dict(vals or {}), defs or {}, {}, set(positive)

    def val(self, t):
        st = [t]
        while st:
            x = st[-1]
            if x in self.m:
                st.pop()
                continue
            ks = [self.defs[x]] if x.op == 'v' and x in self.defs else [k for k in x.a if isinstance(k, T)]
            ks = [k for k in ks if k not in self.m]
            if ks:
                st.extend(ks)
                continue
            try:
                self.m[x] = self.one(x)
            except (ValueError, ZeroDivisionError, OverflowError):
                raise Retry('domain')
            st.pop()
        return self.m[t]

    def one(self, t):
        o, a, m = t.op, t.a, self.m
        if o == 'n':
            return float(a[0])
        if o == 'pi':
            return math.pi
        if o == 'v':
            if t in self.defs:
                return m[self.defs[t]]
            if t not in self.vals:
                self.vals[t] = self.rng.uniform(0.3, 2) if t in self.positive else self.rng.uniform(-2, 2)
            return self.vals[t]
        x = [m[k] if isinstance(k, T) else k for k in a]
        if o == '+':
            return x[0] + x[1]
        if o == '*':
            return x[0] * x[1]
        if o == 'neg':
            return -x[0]
        if o == '/':
            return x[0] / x[1]
        if o in ('^', 'pow'):
            return math.pow(x[0], x[1])
        if o == 'abs':
            return abs(x[0])
        if o == 'sign':
            return float((x[0] > 0) - (x[0] < 0))
        if o == 'solve':
            return gauss(self, a, m, lambda x: x, lambda x: 1 / x, lambda x: abs(x) < 1e-12)
        if o == 'u':
            return self.vals.setdefault((t,), self.rng.uniform(-2, 2))
        return getattr(math, o)(*x)


class Verdict:
    def __init__(self, ok, why='', point=None):
        self.ok, self.why, self.point = ok, why, point

    def __bool__(self):
        return bool(self.ok)


def decide(pairs, defs=None, vals=None, angs=None, positive=(), seed=1, points=3, tries=4000, setup=None):
    """pairs: list of (name, term, term). All terms of a pair are algebraic functions of the atoms (and of
    points of the unit circle); they are equal iff they agree at random points of GF(p), with an error
    probability below degree/2^61 per point. setup(field) may fix values that satisfy preconditions."""
    rng = random.Random(seed)
    done = 0
    for _ in range(tries):
        f = Field(rng, vals, angs, defs, positive)
        try:
            if setup:
                setup(f)
            for nm, x, y in pairs:
                if (f.val(x) - f.val(y)) % P:
                    return Verdict(False, nm)
        except Retry:
            continue
        done += 1
        if done >= points:
            return Verdict(True)
    return Verdict(None, 'no admissible point found')


def witness(pairs, defs=None, vals=None, positive=(), seed=1, tries=500, setup=None, tol=1e-7):
    """a floating point counterexample of one of the pairs, or None"""
    rng = random.Random(seed)
    for _ in range(tries):
        f = Real(rng, vals, defs, positive)
        try:
            if setup:
                setup(f)
            for nm, x, y in pairs:
                u, v = f.val(x), f.val(y)
                if abs(u - v) > tol * (1 + abs(u) + abs(v)):
                    return nm, u, v, {str(k.a[0]): w for k, w in f.vals.items() if isinstance(k, T)}
        except Retry:
            continue
    return None
