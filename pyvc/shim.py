"""Stand-in for the C++ module pymbs.symbolics.symbolics: every expression is an array of scalar terms
(terms.T). The Python sources of /repo/pymbs run on it unchanged; its functions are the contracts of the
symbolic library (properties S01-S08 are about those): element-wise value semantics."""
import sys
from fractions import Fraction
from . import terms as t

NUM = (int, float, Fraction)


class Error(Exception):
    pass


def pynum(x):
    """a constant scalar comes back as a Python number"""
    v = x.a[0]
    if v.denominator == 1:
        return int(v)
    f = float(v)
    return f if Fraction(f) == v else None


def wrap(x):
    if x.op == 'n':
        p = pynum(x)
        if p is not None:
            return p
    return CBasic((), (1, 1), [x])


def lift(x):
    if isinstance(x, CBasic):
        return x
    if isinstance(x, t.T):
        return CBasic((), (1, 1), [x])
    if isinstance(x, bool):
        raise TypeError('bool')
    if isinstance(x, NUM):
        return CBasic((), (1, 1), [t.num(x)])
    if hasattr(x, 'dtype') and getattr(x, 'shape', None) == ():
        return CBasic((), (1, 1), [t.num(float(x))])
    raise TypeError('no expression: %r' % (x,))


def result(shp, dims, e, cls=None, kind=None):
    """cls: the Python class; kind: what the library holds (see kind below), the class decides if it is not given"""
    if dims == (1, 1) and shp == ():
        return wrap(e[0])       # scalar results are no matrices
    r = (cls or CBasic).__new__(cls or CBasic)
    r.shp, r.dims, r.e = shp, dims, list(e)
    if kind:
        r.node = kind
    return r


def kind(x):
    """the node the library holds: M(atrix), Z(ero), E(ye), N(egative of a matrix) or another one (empty)"""
    k = x.__dict__.get('node')
    return k if k is not None else 'M' if isinstance(x, CMatrix) else 'Z' if isinstance(x, CZeros) else 'E' if isinstance(x, CEye) else ''


def null(e):
    return all(x == t.num(0) for x in e)


def array(shp, dims, e, k, cls=None):
    """a result of the library: arrays that are zero throughout are no matrices, matrices are if no function made them"""
    if dims == (1, 1) and shp == ():
        return wrap(e[0])
    if null(e) and k != 'M!':
        return result(shp, dims, e, CBasic, 'Z')
    k = k.rstrip('!')
    return result(shp, dims, e, cls or (CMatrix if k == 'M' else CBasic), k)


def dims_of(shp):
    shp = (shp,) if isinstance(shp, int) else tuple(shp)
    return {0: (1, 1), 1: (shp[0], 1) if shp else None}.get(len(shp)) or (shp[0], shp[1])


def explicit(*a):
    """the node of a product"""
    a = [x for x in a if x.shp != ()]
    k = [kind(x) for x in a]
    return 'N' if 'N' in k and all(k) else 'M' if all(k) else ''


def scaled(x):
    return {'E': 'M'}.get(kind(x), kind(x))


class CBasic:
    def __init__(self, shp, dims, e):
        self.shp, self.dims, self.e = shp, dims, e

    def shape(self):
        return self.shp

    def __len__(self):
        if not self.shp:
            raise TypeError('scalar has no length')
        return self.shp[0]

    def at(self, i, j=0):
        r, c = self.dims
        if not (0 <= i < r and 0 <= j < c):
            raise Error('index')
        return self.e[i * c + j]

    def span(self, k, n):
        if isinstance(k, slice):
            return list(range(*k.indices(n))), True
        if k < 0:
            k += n
        if not 0 <= k < n:
            raise IndexError(k)
        return [k], False

    def __getitem__(self, k):
        r, c = self.dims
        if not isinstance(k, tuple):
            if r > 1 and c > 1:
                raise Error('index')
            n = max(r, c)
            ks, many = self.span(k, n)
            ks = [(i, 0) if c == 1 else (0, i) for i in ks]
            if not many:
                return wrap(self.at(*ks[0]))
            return result((len(ks),), (len(ks), 1) if c == 1 else (1, len(ks)), [self.at(*i) for i in ks], CMatrix)
        a, b = self.span(k[0], r), self.span(k[1], c)
        if not a[1] and not b[1]:
            return wrap(self.at(a[0][0], b[0][0]))
        e = [self.at(i, j) for i in a[0] for j in b[0]]
        d = (len(a[0]), len(b[0]))
        shp = d if d[0] > 1 and d[1] > 1 else (max(d),)
        return result(shp, d, e, CMatrix)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    # comparison is structural
    def __eq__(self, o):
        try:
            o = lift(o)
        except TypeError:
            return False
        return self.dims == o.dims and self.e == o.e

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(tuple(x._h for x in self.e))

    def __bool__(self):
        return True

    def bin(self, o, f):
        o = lift(o)
        if self.dims != o.dims:
            for x, y in ((self, o), (o, self)):
                if x.dims == (1, 1) and y.dims != (1, 1):
                    raise Error('Shape Error: %s %s' % (self.shp, o.shp))
            raise Error('Shape Error: %s %s' % (self.shp, o.shp))
        shp = self.shp if len(self.shp) <= len(o.shp) else o.shp
        a, b = kind(self), kind(o)
        e = [f(x, y) for x, y in zip(self.e, o.e)]
        if b == 'Z' or null(o.e):
            return array(shp, self.dims, e, a or '')
        if a == 'Z' or null(self.e):
            k = b if f is t.add else {'M': 'N', 'N': 'M', 'E': 'M'}.get(b, '')
        elif f is t.add:
            k = 'M!' if a in ('M', 'E') and b in ('M', 'E') else ''
        else:
            k = 'M!' if b == 'E' and a in ('M', 'E') or a in ('M', 'E') and b == 'N' else ''
        return array(shp, self.dims, e, k)

    def __add__(self, o):
        if isinstance(o, NUM) and o == 0:
            return array(self.shp, self.dims, self.e, kind(self))
        return self.bin(o, t.add)

    def __radd__(self, o):
        if isinstance(o, NUM) and o == 0:
            return self
        return lift(o).bin(self, t.add)

    def __sub__(self, o):
        if isinstance(o, NUM) and o == 0:
            return self
        return self.bin(o, t.sub)

    def __rsub__(self, o):
        if isinstance(o, NUM) and o == 0:
            return -self
        return lift(o).bin(self, t.sub)

    def __neg__(self):
        return array(self.shp, self.dims, [t.neg(x) for x in self.e], {'M': 'N', 'N': 'M', 'E': 'M'}.get(kind(self), ''))

    def __pos__(self):
        return self

    def __mul__(self, o):
        try:
            o = lift(o)
        except TypeError:
            return NotImplemented
        if self.shp == ():
            return array(o.shp, o.dims, [t.mul(self.e[0], x) for x in o.e], scaled(o))
        if o.shp == ():
            return array(self.shp, self.dims, [t.mul(x, o.e[0]) for x in self.e], scaled(self))
        (r, k), (k2, c) = self.dims, o.dims
        if k != k2:
            raise Error('Shape Error: Inner dimensions must be equal! %s %s' % (self.dims, o.dims))
        e = []
        for i in range(r):
            for j in range(c):
                s = t.num(0)
                for m in range(k):
                    s = t.add(s, t.mul(self.at(i, m), o.at(m, j)))
                e.append(s)
        # a vector times a vector is a scalar or a matrix, a vector and a matrix give a vector if they can
        if len(self.shp) == len(o.shp):
            shp = () if len(self.shp) == 1 and (r, c) == (1, 1) else (r, c)
        else:
            shp = (r,) if c == 1 else (c,) if r == 1 else (r, c)
        return array(shp, (r, c), e, explicit(self, o))

    def __rmul__(self, o):
        return lift(o) * self

    def __truediv__(self, o):
        o = lift(o)
        if o.dims != (1, 1):
            raise Error('division by an array')
        return array(self.shp, self.dims, [t.div(x, o.e[0]) for x in self.e], scaled(self))

    def __rtruediv__(self, o):
        return lift(o) / self

    def __pow__(self, n):
        if self.dims == (1, 1):
            n = lift(n)
            return result(self.shp, self.dims, [t.power(self.e[0], n.e[0])])
        if not isinstance(n, int) or n < 1 or self.dims[0] != self.dims[1]:
            raise Error('power')
        r = self
        for _ in range(n - 1):
            r = r * self
        return r

    def __rpow__(self, o):
        return lift(o) ** self

    def __abs__(self):
        return result(self.shp, self.dims, [t.fn('abs', x) for x in self.e])

    def norm(self):
        s = t.num(0)
        for x in self.e:
            s = t.add(s, t.mul(x, x))
        return wrap(t.power(s, Fraction(1, 2)))

    def simplify(self):
        return self

    def atoms(self):
        return {World.cur.owner.get(a, a) for a in t.atoms(self.e)}

    def __repr__(self):
        return 'E%s%s' % (self.shp, self.e if len(self.e) < 4 else '')


class CNumber(CBasic):
    def __init__(self, x):
        CBasic.__init__(self, (), (1, 1), [t.num(x)])


def entry(x):
    x = lift(x)
    if x.dims != (1, 1):
        raise Error('matrix entry must be a scalar')
    return x.e[0]


class CMatrix(CBasic):
    def __init__(self, a):
        if hasattr(a, 'tolist'):
            a = a.tolist()
            if a and isinstance(a[0], list) and len(a[0]) == 1:
                a = [x[0] for x in a]
        if isinstance(a, tuple):
            self.shp, self.dims = tuple(a), dims_of(a)
            self.e = [t.num(0)] * (self.dims[0] * self.dims[1])
        elif isinstance(a, CBasic):
            self.shp, self.dims, self.e = a.shp, a.dims, list(a.e)
        elif a and isinstance(a[0], (list, tuple)):
            self.shp = self.dims = (len(a), len(a[0]))
            if any(len(x) != len(a[0]) for x in a):
                raise Error('ragged')
            self.e = [entry(x) for r in a for x in r]
        else:
            self.shp, self.dims = (len(a),), (len(a), 1)
            self.e = [entry(x) for x in a]

    __hash__ = CBasic.__hash__

    def __setitem__(self, k, v):
        r, c = self.dims
        if not isinstance(k, tuple):
            k = (k, 0) if c == 1 else (0, k)
        a, b = self.span(k[0], r)[0], self.span(k[1], c)[0]
        v = lift(v)
        if v.dims != (len(a), len(b)):
            raise Error('shape of assigned value %s %s' % (v.dims, (len(a), len(b))))
        for x, i in enumerate(a):
            for y, j in enumerate(b):
                self.e[i * c + j] = v.at(x, y)

    def __iadd__(self, o):
        o = lift(o)
        if o.dims != self.dims:
            raise Error('Shape Error')
        self.e = [t.add(x, y) for x, y in zip(self.e, o.e)]
        return self

    def __isub__(self, o):
        o = lift(o)
        if o.dims != self.dims:
            raise Error('Shape Error')
        self.e = [t.sub(x, y) for x, y in zip(self.e, o.e)]
        return self


class CZeros(CBasic):
    def __init__(self, a):
        if isinstance(a, int):
            a = (a, a)
        CBasic.__init__(self, tuple(a), dims_of(a), None)
        self.e = [t.num(0)] * (self.dims[0] * self.dims[1])


class CEye(CBasic):
    def __init__(self, a):
        if isinstance(a, int):
            a = (a, a)
        CBasic.__init__(self, tuple(a), dims_of(a), None)
        r, c = self.dims
        self.e = [t.num(int(i == j)) for i in range(r) for j in range(c)]


class World:
    """variables of one run: the terms they are defined by, their rates"""
    cur = None

    def __init__(self):
        self.defs, self.rates, self.owner, self.syms, self.kinds, self.implicit = {}, {}, {}, {}, {}, []
        World.cur = self


class CSymbol(CBasic):
    def __init__(self, name, shp=(), kind=1):
        shp = tuple(shp)
        self.shp, self.dims, self.name, self.kind = shp, dims_of(shp), name, kind
        r, c = self.dims
        if shp == ():
            self.e = [t.atom(name)]
        else:
            self.e = [t.atom('%s[%d,%d]' % (name, i, j)) for i in range(r) for j in range(c)]
        for a in self.e:
            World.cur.owner[a] = self

    __hash__ = CBasic.__hash__

    def __str__(self):
        return self.name

    __repr__ = __str__

    def kind_(self):
        return self.kind


def elementwise(name):
    class F(CBasic):
        def __new__(cls, x):
            x = lift(x)
            return result(x.shp, x.dims, [t.fn(name, y) for y in x.e])
    F.__name__ = name
    return F


acos, asin, atan, sin, cos, tan, sign = map(elementwise, ('acos', 'asin', 'atan', 'sin', 'cos', 'tan', 'sign'))


def func(f):
    class F(CBasic):
        def __new__(cls, *a):
            return f(*a)
    F.__name__ = f.__name__
    return F


@func
def atan2(y, x):
    y, x = lift(y), lift(x)
    return wrap(t.fn('atan2', entry(y), entry(x)))


@func
def element(A, i, j=0):
    return wrap(lift(A).at(i, j))


@func
def scalar(x):
    return wrap(entry(x))


@func
def skew(v):
    v = lift(v)
    if v.dims != (3, 1):
        raise Error('skew')
    a, b, c = v.e
    z = t.num(0)
    return array((3, 3), (3, 3), [z, t.neg(c), b, c, z, t.neg(a), t.neg(b), a, z], 'M' if kind(v) == 'M' else '', CBasic)


@func
def transpose(a):
    a = lift(a)
    r, c = a.dims
    shp = a.shp if len(a.shp) < 2 else (c, r)
    if shp == ():
        return result((), (1, 1), a.e)
    return array(shp, (c, r), [a.at(i, j) for j in range(c) for i in range(r)], kind(a), CBasic)


@func
def outer(a, b):
    a, b = lift(a), lift(b)
    return array((a.dims[0], b.dims[0]), (a.dims[0], b.dims[0]), [t.mul(x, y) for x in a.e for y in b.e], explicit(a, b), CBasic)


@func
def jacobian(f, x):
    f, x = lift(f), lift(x)
    if x.shp == ():
        raise Error('Jacobian could only be used with Vector as second argument!')
    e = []
    n = len(x.e)
    cols = [[t.diff(y, {v: 1}) for y in f.e] for v in x.e]
    m = len(f.e)
    e = [cols[j][i] for i in range(m) for j in range(n)]
    return array((m, n), (m, n), e, 'M', CBasic)


class der(CBasic):
    def __new__(cls, x):
        w = World.cur
        x = lift(x)
        if isinstance(x, CSymbol):
            r = object.__new__(cls)
            r.of = x
            r.shp, r.dims = x.shp, x.dims
            r.e = [w.rates.setdefault(a, t.atom('der(%s)' % a.a[0])) if a not in w.defs or a in w.rates
                   else t.diff(w.defs[a], w.rates) for a in x.e]
            return r
        return array(x.shp, x.dims, [t.diff(y, w.rates) for y in x.e], scaled(x), CBasic)

    def __init__(self, x):
        pass

    __hash__ = CBasic.__hash__


@func
def solve(A, b):
    """fresh unknowns x with A x = b; the equation is remembered"""
    A, b = lift(A), lift(b)
    w = World.cur
    n = A.dims[0]
    if A.dims != (n, n) or b.dims[0] != n:
        raise Error('Shape Error')
    c = b.dims[1]
    x = [t.mk('solve', i, n, *A.e, *[b.at(k, j) for k in range(n)]) for i in range(n) for j in range(c)]
    w.implicit.append((A, x, b))
    return result(b.shp, b.dims, x)


@func
def inv(A):
    A = lift(A)
    if A.dims == (1, 1):
        return wrap(t.div(t.num(1), A.e[0]))
    n = A.dims[0]
    x = [t.mk('solve', i, n, *A.e, *[t.num(int(k == j)) for k in range(n)]) for i in range(n) for j in range(n)]
    return result(A.shp, A.dims, x)


def cond(name):
    class F(CBasic):
        def __new__(cls, *a):
            a = [lift(x) for x in a]
            r = a[-1]
            return result(r.shp, r.dims, [t.mk(name, *[x.e[min(i, len(x.e) - 1)] for x in a]) for i in range(len(r.e))])
    F.__name__ = name
    return F


If, Less, Greater, Equal = map(cond, ('If', 'Less', 'Greater', 'Equal'))


class CGraph:
    def __init__(self):
        self.w = World.cur
        if 'time' not in self.w.syms:
            self.addVariable('time')

    def addVariable(self, name, shape=(), kind=1, init=None, comment=''):
        w = self.w
        if name in w.syms:
            raise Error("Variable '%s' already exists" % name)
        s = w.syms[name] = CSymbol(name, shape, kind)
        w.kinds[name] = (kind, init)
        if hasattr(w, 'added'):
            w.added.append(name)
        return s

    def getVariable(self, name):
        return self.w.syms[name]

    def addEquation(self, lhs, rhs, implicit=False):
        w = self.w
        if lhs is None:
            return
        if isinstance(rhs, list):
            rhs = CMatrix(rhs)
        rhs = lift(rhs)
        if isinstance(lhs, list):
            # several scalars at once
            le = [x for s in lhs for x in s.e]
        else:
            le = lhs.e
        if len(le) != len(rhs.e):
            raise Error('shape of equation %s' % (lhs,))
        if isinstance(lhs, der):
            w.eqs = getattr(w, 'eqs', []) + [(lhs, rhs)]
            return
        for a, x in zip(le, rhs.e):
            if a in w.defs:
                raise Error('%s is already defined' % a)
            if a is not x:
                w.defs[a] = x

    def getAssignments(self, kind):
        return []

    def getVariables(self, kind):
        return [s for n, s in self.w.syms.items() if s.kind == kind]

    def getinitVal(self, s):
        return self.w.kinds[str(s)][1]

    def buildGraph(self, optimize=True):
        return True
