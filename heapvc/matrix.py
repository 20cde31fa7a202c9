"""Contracts of the matrix classes (S06): Shape, NaryOp's arguments, Matrix and SymmetricMatrix.

An expression stands for its value (a real); an element of a matrix is the value of the argument at
the place the class gives it (row by row, or the upper triangle of a symmetric matrix).
"""
import z3
from core import *
from execute import Contract, Loop, Call, Obj, LV

T = {}
B = 'Symbolics::'
BP = 'boost::intrusive_ptr<Symbolics::Basic>'
OWN = ('Matrix', 'SymmetricMatrix')


def A(a, *i):
    for k in i:
        a = z3.Select(a, k)
    return a


# ---------------------------------------------------------------- places of the elements
def tri(W, n):
    return (n + 1) * n / 2 if W.finite else W.fn('tri', W.Int, W.Int)(n)


def num(W, s, d1, d2):
    return z3.If(s, tri(W, d1), d1 * d2)


def idxdef(W, s, d1, d2, r, c):
    a, b = z3.If(r > c, c, r), z3.If(r > c, r, c)
    return z3.If(s, d1 * a - (a * (a - 1)) / 2 + b - a, r * d2 + c)


def idx(W, s, d1, d2, r, c):
    if W.finite:
        return idxdef(W, s, d1, d2, r, c)
    return W.fn('idx', W.Bool, W.Int, W.Int, W.Int, W.Int, W.Int)(s, d1, d2, r, c)


def lemmas(W, which=None):
    """facts about the places, each proved from the definitions (run.py: lemma obligations)"""
    if W.finite:
        return []
    I, Bo = W.Int, W.Bool
    row = W.fn('row', Bo, I, I, I, I)
    col = W.fn('col', Bo, I, I, I, I)

    def rng(s, d1, d2, r, c):
        return z3.And(r >= 0, r < d1, c >= 0, c < d2, z3.Implies(s, d1 == d2))
    ix = lambda s, d1, d2, r, c: idx(W, s, d1, d2, r, c)
    L = [
        W.all([Bo, I, I, I, I], lambda s, d1, d2, r, c: z3.Implies(rng(s, d1, d2, r, c), z3.And(ix(s, d1, d2, r, c) >= 0, ix(s, d1, d2, r, c) < num(W, s, d1, d2))),
              lambda s, d1, d2, r, c: [ix(s, d1, d2, r, c)]),
        W.all([Bo, I, I, I, I], lambda s, d1, d2, r, c: z3.Implies(rng(s, d1, d2, r, c), z3.And(row(s, d1, d2, ix(s, d1, d2, r, c)) == z3.If(z3.And(s, r > c), c, r),
                                                                                             col(s, d1, d2, ix(s, d1, d2, r, c)) == z3.If(z3.And(s, r > c), r, c))),
              lambda s, d1, d2, r, c: [ix(s, d1, d2, r, c)]),
        W.all([I, I, I, I], lambda d1, d2, r, c: z3.Implies(d1 == d2, ix(W.true(), d1, d2, r, c) == ix(W.true(), d1, d2, c, r)), lambda d1, d2, r, c: [ix(W.true(), d1, d2, r, c)]),
        W.all([Bo, I, I], lambda s, d1, r: z3.Implies(rng(s, d1, W.i(1), r, W.i(0)), ix(s, d1, W.i(1), r, W.i(0)) == r), lambda s, d1, r: [ix(s, d1, W.i(1), r, W.i(0))]),
        W.all([Bo, I, I], lambda s, d2, c: z3.Implies(rng(s, W.i(1), d2, W.i(0), c), ix(s, W.i(1), d2, W.i(0), c) == c), lambda s, d2, c: [ix(s, W.i(1), d2, W.i(0), c)]),
        W.all([I], lambda n: z3.Implies(n >= 1, z3.And(tri(W, n) >= 1, z3.Implies(n == 1, tri(W, n) == 1))), lambda n: [tri(W, n)]),
        # a full matrix, filled row by row
        W.all([I, I, I, I], lambda d1, d2, r, c: z3.And(ix(W.false(), d1, d2, r, c + 1) == ix(W.false(), d1, d2, r, c) + 1, ix(W.false(), d1, d2, r + 1, W.i(0)) == ix(W.false(), d1, d2, r, d2)),
              lambda d1, d2, r, c: [ix(W.false(), d1, d2, r, c)]),
        W.all([I, I], lambda d1, d2: ix(W.false(), d1, d2, W.i(0), W.i(0)) == 0, lambda d1, d2: [ix(W.false(), d1, d2, W.i(0), W.i(0))]),
        W.all([I, I, I], lambda d1, d2, r: z3.Implies(r == d1, ix(W.false(), d1, d2, r, W.i(0)) == d1 * d2), lambda d1, d2, r: [ix(W.false(), d1, d2, r, W.i(0))]),
        W.all([I, I, I, I, I, I], lambda d1, d2, r, c, m, n: z3.Implies(z3.And(c >= 0, c < d2, n >= 0, d2 >= 1, z3.Or(r < m, z3.And(r == m, c < n))), ix(W.false(), d1, d2, r, c) < ix(W.false(), d1, d2, m, n)),
              lambda d1, d2, r, c, m, n: [z3.MultiPattern(ix(W.false(), d1, d2, r, c), ix(W.false(), d1, d2, m, n))]),
    ]
    return L


def lemma_obligations():
    """the facts, without quantifiers, from the definitions: (name, claim) over free variables"""
    c = z3.Context()
    I = z3.IntSort(c)
    v = lambda n: z3.Int(n, c)
    r, cc, d1, d2, m, n, r2, c2 = (v(x) for x in ('r', 'c', 'd1', 'd2', 'm', 'n', 'r2', 'c2'))

    class F:
        finite = True
    fi = lambda s, r, c: idxdef(F, z3.BoolVal(s, d1.ctx), d1, d2, r, c)
    ok = lambda r, c: z3.And(r >= 0, r < d1, c >= 0, c < d2)
    out = []
    out.append(('places of a full matrix are below its size', z3.Implies(ok(r, cc), z3.And(fi(False, r, cc) >= 0, fi(False, r, cc) < d1 * d2))))
    out.append(('places of a full matrix differ', z3.Implies(z3.And(ok(r, cc), ok(r2, c2), fi(False, r, cc) == fi(False, r2, c2)), z3.And(r == r2, cc == c2))))
    # symmetric: a*(a-1)/2 is exact; 2*place avoids the division
    dbl = lambda a, b: 2 * d1 * a - a * (a - 1) + 2 * b - 2 * a
    sq = z3.And(d1 == d2, ok(r, cc), r <= cc)
    sq2 = z3.And(ok(r2, c2), r2 <= c2)
    h, g, t = v('h'), v('g'), v('t')
    out.append(('places of a symmetric matrix are below its size', z3.Implies(z3.And(sq, 2 * h == r * (r - 1), 2 * t == (d1 + 1) * d1), z3.And(d1 * r - h + cc - r >= 0, d1 * r - h + cc - r < t))))
    out.append(('places of a symmetric matrix differ (rows)', z3.Implies(z3.And(sq, sq2, r < r2), dbl(r, cc) < dbl(r2, c2))))
    out.append(('places of a symmetric matrix differ (columns)', z3.Implies(z3.And(sq, sq2, r == r2, dbl(r, cc) == dbl(r2, c2)), cc == c2)))
    out.append(('the division by two is exact', z3.And(z3.Implies(r == 2 * t, 2 * (t * (r - 1)) == r * (r - 1)), z3.Implies(r == 2 * t + 1, 2 * (r * t) == r * (r - 1)))))
    out.append(('both halves are one place', fi(True, r, cc) == z3.substitute(fi(True, r2, c2), (r2, cc), (c2, r))))
    out.append(('columns', z3.Implies(z3.And(d2 == 1, ok(r, cc)), fi(False, r, cc) == r)))
    out.append(('rows', z3.Implies(z3.And(d1 == 1, ok(r, cc)), fi(False, r, cc) == cc)))
    out.append(('scalars', z3.Implies(z3.And(d1 == 1, d2 == 1, ok(r, cc)), fi(True, r, cc) == 0)))
    out.append(('next column', fi(False, r, cc + 1) == fi(False, r, cc) + 1))
    out.append(('next row', fi(False, r + 1, z3.IntVal(0, c)) == fi(False, r, d2)))
    out.append(('end', fi(False, d1, z3.IntVal(0, c)) == d1 * d2))
    out.append(('order', z3.Implies(z3.And(cc >= 0, cc < d2, n >= 0, d2 >= 1, z3.Or(r < m, z3.And(r == m, cc < n))), fi(False, r, cc) < fi(False, m, n))))
    out.append(('size of a symmetric matrix', z3.Implies(d1 >= 1, z3.And((d1 + 1) * d1 / 2 >= 1, z3.Implies(d1 == 1, (d1 + 1) * d1 / 2 == 1)))))
    return c, out


# ---------------------------------------------------------------- views
class S:
    """a shape"""

    def __init__(self, k, o=None, v=None, st=None):
        st = st or k.s
        self.W = k.W
        if v is None:
            if isinstance(o, Obj):
                g = lambda f: A(k.X.heap(st, o.cls, f), o.ref)
                self.nd, self.d1, self.d2, self.ne = g('m_ndim'), g('m_dim1'), g('m_dim2'), g('m_numElem')
                return
            v = k.X.rv(st, o)
        g = lambda f: v.d[(f,)]
        self.nd, self.d1, self.d2, self.ne = g('m_ndim'), g('m_dim1'), g('m_dim2'), g('m_numElem')

    def wf(self):
        return z3.And(self.nd >= 0, self.nd <= 2, self.d1 >= 1, self.d2 >= 1, self.ne == self.d1 * self.d2, z3.Implies(self.nd == 0, z3.And(self.d1 == 1, self.d2 == 1)),
                      z3.Implies(self.nd == 1, z3.Or(self.d1 == 1, self.d2 == 1)))

    def eq(self, o):
        return z3.And(self.nd == o.nd, self.d1 == o.d1, self.d2 == o.d2)


class M:
    """a matrix"""

    def __init__(self, k, o, st=None):
        W = self.W = k.W
        st = st or k.s
        self.o = o
        self.k, self.st = k, st
        h = lambda f, *p: A(k.X.heap(st, 'Matrix', f, p), o.ref)
        self.nd, self.d1, self.d2, self.ne = (h('m_shape', f) for f in ('m_ndim', 'm_dim1', 'm_dim2', 'm_numElem'))
        self.len, self.at = h('m_args', 'len'), h('m_args', 'at', 'm_arg')
        self.sym = sym(W, o.ref)

    def num(self):
        return num(self.W, self.sym, self.d1, self.d2)

    def el(self, r, c):
        return A(self.at, idx(self.W, self.sym, self.d1, self.d2, r, c))

    def shape(self):
        s = S.__new__(S)
        s.W, s.nd, s.d1, s.d2, s.ne = self.W, self.nd, self.d1, self.d2, self.ne
        return s

    def wf(self):
        return z3.And(self.shape().wf(), self.len == self.num(), z3.Implies(self.sym, self.d1 == self.d2))

    def inside(self, r, c):
        return z3.And(r >= 0, r < self.d1, c >= 0, c < self.d2)

    def all(self, f):
        """for every row and column"""
        W = self.W
        return W.all([W.Int, W.Int], lambda r, c: z3.Implies(self.inside(r, c), f(r, c)), lambda r, c: [idx(W, self.sym, self.d1, self.d2, r, c)] if not W.finite else [])

    def same(self, o):
        return z3.And(self.shape().eq(o.shape()), self.ne == o.ne, self.len == o.len)


def sym(W, r):
    return W.fn('sym', W.Ref, W.Bool)(r)


HEAP = (('NaryOp', 'm_args', ('len',)), ('NaryOp', 'm_args', ('at', 'm_arg')), ('Basic', 'm_shape', ('m_ndim',)), ('Basic', 'm_shape', ('m_dim1',)), ('Basic', 'm_shape', ('m_dim2',)), ('Basic', 'm_shape', ('m_numElem',)))


def others(k, entry, ref):
    """nothing but the object changed since entry"""
    out = []
    for c, f, p in HEAP:
        a, b = k.X.heap(k.s, c, f, p), k.X.heap(entry.s, c, f, p)
        out.append(a == z3.Store(b, ref, z3.Select(a, ref)))
    return ('nothing else is changed', z3.And(out))


def frame(mut):
    def f(k):
        W = k.W
        out = []
        for c, fl, p in HEAP:
            a, b = k.X.heap(k.s, c, fl, p), k.X.heap(k.s0, c, fl, p)
            if a.eq(b):
                continue
            out.append(('no other object is changed (%s)' % '.'.join(p), W.all(W.Ref, lambda o: z3.Implies(z3.And(A(k.s0.ghost['alloc'], o), o != k.this.ref if mut else W.true()), A(a, o) == A(b, o)))))
        return out
    return f


def start(k):
    """what is known on entry: classes of the arguments; the new object is no argument"""
    W = k.W
    k.X.hooknew = hooknew
    WORLD[id(W.ctx)] = W
    k.X.constant = ('Int', 'Real')
    al = W.fresh('alloc', z3.ArraySort(W.Ref, W.Bool))
    k.s.ghost['alloc'] = al
    k.s0.ghost['alloc'] = al
    pc = [z3.Not(A(al, W.null))]
    for a in [k.this] + list(k.args):
        if isinstance(a, Obj):
            pc += [A(al, a.ref), a.ref != W.null]
            if a.cls == 'SymmetricMatrix':
                pc.append(sym(W, a.ref))
    if k.this is not None and isinstance(k.this, Obj) and (k.X.exactcls or k.this.exact) and k.this.cls in OWN:
        pc.append(sym(W, k.this.ref) == (W.true() if k.this.cls == 'SymmetricMatrix' else W.false()))
        if k.this.exact:
            pc += [k.this.ref != a.ref for a in k.args if isinstance(a, Obj)]
    k.s.pc += pc
    if k.s is not k.s0:
        k.s0.pc += pc
    k.X.axioms += lemmas(W)
    d = getattr(k.X.contract, 'define', ())
    if d and not W.finite:
        m = M(k, k.this)
        if 'tri' in d:
            k.X.axioms.append(tri(W, m.d1) == (m.d1 + 1) * m.d1 / 2)
        if 'idx' in d:
            r, c = (k.X.rv(k.s, a).x for a in k.args)
            k.X.axioms.append(idx(W, m.sym, m.d1, m.d2, r, c) == idxdef(W, m.sym, m.d1, m.d2, r, c))


def hooknew(X, s, o):
    if o.cls in OWN:
        s.pc.append(sym(X.W, o.ref) == (X.W.true() if o.cls == 'SymmetricMatrix' else X.W.false()))


def functional(X, c, k, rty):
    return X.apply(c, k, [], rty)


def mutator(X, c, k, rty):
    for nm, g in (c.pre(k) if c.pre else []):
        X.need(k.s, 'precondition of %s: %s' % (c.key.split('(')[0].split('::')[-1], nm), g)
    s = k.s
    if c.exc:
        e = s.copy()
        for cl, f, p in HEAP:
            a = X.heap(e, cl, f, p)
            e.heap[(cl, f) + p] = z3.Store(a, k.this.ref, X.W.fresh('x', a.sort().range()))
        e.pc += [g for nm, g in c.exc(k.now(e))]
        X.raised.append(e)
    for cl, f, p in HEAP:
        a = X.heap(s, cl, f, p)
        s.heap[(cl, f) + p] = z3.Store(a, k.this.ref, X.W.fresh('%s.%s' % (f, '.'.join(p)), a.sort().range()))
        if p == ('len',):
            s.pc.append(z3.Select(s.heap[(cl, f) + p], k.this.ref) >= 0)
    if k.this.cls in OWN or True:
        h = ('Basic', 'm_simplified')
        a = X.heap(s, *h)
        s.heap[h] = z3.Store(a, k.this.ref, X.W.fresh('simplified', X.W.Bool))
    k.ret = k.this
    rt = X.P.funcs[c.key].ret or ''
    s.pc += [g for nm, g in c.post(k)]
    return [(s, k.this if '&' in rt.split('(')[0] else None)]


def contract(key, mut=False, post=None, call=None, exact=False, **kw):
    c = T[key] = Contract(key, prop='S06', post=post, call=call or (mutator if mut else functional), setup=start, **kw)
    c.frame = frame(mut)
    c.exactcls = exact
    return c


def val(k, i, st=None):
    """value of an argument: an expression, a number or an object of class Int or Real"""
    v = k.args[i]
    W = k.W
    if isinstance(v, Obj):
        return number(W, v)
    v = k.X.rv(st or k.s0, v)
    if isinstance(v, Obj):
        return number(W, v)
    return z3.ToReal(v.x) if v.x.sort() == W.Int else v.x


def number(W, o):
    if o.cls == 'Int':
        return z3.ToReal(W.fn('intvalue', W.Ref, W.Int)(o.ref))
    if o.cls == 'Real':
        return W.fn('realvalue', W.Ref, W.Real)(o.ref)
    raise Undecided('value of a ' + o.cls)


def iv(k, i):
    return k.X.rv(k.s0, k.args[i]).x


# ---------------------------------------------------------------- expressions
WORLD = {}


def rmul(a, b):
    """product of two values: an uninterpreted function in proofs"""
    W = WORLD[id(a.ctx)]
    return a * b if W.finite else W.fn('rmul', W.Real, W.Real, W.Real)(a, b)


OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': rmul}
for _o, _f in OPS.items():
    for _a, _b in ((BP + ' const&', BP + ' const&'), (BP + ' const&', 'double'), (BP + ' const&', 'int'), ('double', BP + ' const&'), ('int', BP + ' const&'),
                   ('Symbolics::Int', BP + ' const&'), ('Symbolics::Real', BP + ' const&'), (BP + ' const&', 'Symbolics::Int'), (BP + ' const&', 'Symbolics::Real')):
        _k = '%soperator%s(%s, %s)' % (B, _o, _a, _b)
        T[_k] = Contract(_k, prop='', abstract=True, pure=lambda k, f=_f: k.X.realv(f(val(k, 0), val(k, 1))), note='the value of the expression is that of the operation (S01)')
_k = B + 'operator-(%s const&)' % BP
T[_k] = Contract(_k, prop='', abstract=True, pure=lambda k: k.X.realv(-val(k, 0)), note='the value of the expression is that of the operation (S01)')
T[B + 'Zero::getZero()'] = Contract(B + 'Zero::getZero()', prop='', abstract=True, pure=lambda k: k.X.realv(z3.RealVal(0, k.W.ctx)), note='has the value zero')
T[B + 'Int::getValue() const'] = Contract(B + 'Int::getValue() const', prop='', abstract=True, pure=lambda k: k.X.intv(k.W.fn('intvalue', k.W.Ref, k.W.Int)(k.this.ref)), note='returns the number')
T[B + 'Real::getValue() const'] = Contract(B + 'Real::getValue() const', prop='', abstract=True, pure=lambda k: k.X.realv(k.W.fn('realvalue', k.W.Ref, k.W.Real)(k.this.ref)), note='returns the number')
for _k in ('Basic::addParent(Symbolics::Argument*)', 'Basic::removeParent(Symbolics::Argument*)'):
    T[B + _k] = Contract(B + _k, prop='', abstract=True, pure='skip', note='changes nothing but the list of parents')
_k = B + 'Basic::der()'
T[_k] = Contract(_k, prop='', abstract=True, pure=lambda k: k.X.realv(k.W.fn('der', k.W.Real, k.W.Real)(k.this.x)), note='a function of the expression')
_k = B + 'Basic::der(%s const&)' % BP
T[_k] = Contract(_k, prop='', abstract=True, pure=lambda k: k.X.realv(k.W.fn('pder', k.W.Real, k.W.Real, k.W.Real)(k.this.x, val(k, 0))), note='a function of the expression and the symbol')


# ---------------------------------------------------------------- Shape
def SH(k, i=None, st=None):
    o = k.this if i is None else k.args[i]
    return S(k, o, st=st or k.s)


def rs(k):
    """the shape that is returned"""
    r = k.ret
    return S(k, v=k.X.load(k.s, r) if isinstance(r, Obj) else r)


def sum_ok(a, b):
    return z3.Or(a.nd == 0, b.nd == 0, a.eq(b))


def pick(c, a, b):
    s = S.__new__(S)
    s.W = a.W
    for f in ('nd', 'd1', 'd2', 'ne'):
        setattr(s, f, z3.If(c, getattr(a, f), getattr(b, f)))
    return s


def prod_ok(a, b):
    return z3.Or(a.nd == 0, b.nd == 0, a.d2 == b.d1)


def prod(a, b):
    s = S.__new__(S)
    s.W = a.W
    s.d1, s.d2, s.ne = a.d1, b.d2, a.d1 * b.d2
    both = z3.And(a.nd == 1, b.nd == 1)
    s.nd = z3.If(both, z3.If(z3.And(a.d1 == 1, b.d2 == 1), 0, 2), z3.If(z3.And(a.d1 != 1, b.d2 != 1), 2, z3.If(a.nd < b.nd, a.nd, b.nd)))
    return pick(a.nd == 0, b, pick(b.nd == 0, a, s))


wf0 = lambda k: [('shapes are in order', z3.And(SH(k, st=k.s0).wf(), *[SH(k, i, k.s0).wf() for i in range(len(k.args))]))]


def shape_mut(key, post, exc):
    c = contract(key, post=post, exc=exc, pre=wf0, call=shape_call)
    c.frame = None


def shape_call(X, c, k, rty):
    for nm, g in c.pre(k):
        X.need(k.s, 'precondition of %s: %s' % (c.key.split('(')[0].split('::')[-1], nm), g)
    s = k.s
    if c.exc:
        e = s.copy()
        e.pc += [g for nm, g in c.exc(k.now(e))]
        X.raised.append(e)
    t = ty(X.P, 'Symbolics::Shape')
    v = X.unknown(t, 'shape', s)
    if isinstance(k.this, Obj):
        for f, ft in t.fields:
            X.fieldlv(k.this, f, s).put(s, field(v, f))
    else:
        k.this.put(s, v)
    k.ret = v
    s.pc += [g for nm, g in c.post(k)]
    return [(s, k.this)]


shape_mut(B + 'Shape::operator+=(Symbolics::Shape const&)',
          lambda k: [('only shapes that fit', sum_ok(SH(k, st=k.s0), SH(k, 0, k.s0))), ('shape of the sum', SH(k).eq(pick(SH(k, st=k.s0).nd == 0, SH(k, 0, k.s0), SH(k, st=k.s0)))), ('in order', SH(k).wf())],
          lambda k: [('shapes that do not fit', z3.Not(sum_ok(SH(k, st=k.s0), SH(k, 0, k.s0))))])
shape_mut(B + 'Shape::operator*=(Symbolics::Shape const&)',
          lambda k: [('only shapes that fit', prod_ok(SH(k, st=k.s0), SH(k, 0, k.s0))), ('shape of the product', SH(k).eq(prod(SH(k, st=k.s0), SH(k, 0, k.s0)))), ('in order', SH(k).wf())],
          lambda k: [('shapes that do not fit', z3.Not(prod_ok(SH(k, st=k.s0), SH(k, 0, k.s0))))])


def shape_fun(key, post, exc=None):
    c = contract(key, post=post, exc=exc, pre=wf0)
    c.frame = None


shape_fun(B + 'Shape::operator+(Symbolics::Shape const&) const',
          lambda k: [('only shapes that fit', sum_ok(SH(k, st=k.s0), SH(k, 0, k.s0))), ('shape of the sum', rs(k).eq(pick(SH(k, st=k.s0).nd == 0, SH(k, 0, k.s0), SH(k, st=k.s0)))), ('in order', rs(k).wf())],
          lambda k: [('shapes that do not fit', z3.Not(sum_ok(SH(k, st=k.s0), SH(k, 0, k.s0))))])
shape_fun(B + 'Shape::operator*(Symbolics::Shape const&) const',
          lambda k: [('only shapes that fit', prod_ok(SH(k, st=k.s0), SH(k, 0, k.s0))), ('shape of the product', rs(k).eq(prod(SH(k, st=k.s0), SH(k, 0, k.s0)))), ('in order', rs(k).wf())],
          lambda k: [('shapes that do not fit', z3.Not(prod_ok(SH(k, st=k.s0), SH(k, 0, k.s0))))])
shape_fun(B + 'Shape::transpose() const', lambda k: [('rows and columns change places', z3.And(rs(k).nd == SH(k, st=k.s0).nd, rs(k).d1 == SH(k, st=k.s0).d2, rs(k).d2 == SH(k, st=k.s0).d1)), ('in order', rs(k).wf())])
shape_fun(B + 'Shape::operator==(Symbolics::Shape const&) const', lambda k: [('equal in every dimension', k.ret.x == SH(k, st=k.s0).eq(SH(k, 0, k.s0)))])
shape_fun(B + 'Shape::operator!=(Symbolics::Shape const&) const', lambda k: [('not equal', k.ret.x == z3.Not(SH(k, st=k.s0).eq(SH(k, 0, k.s0))))])


# ---------------------------------------------------------------- arguments of an operation
def args_of(k, st=None):
    o = k.this
    h = lambda *p: A(k.X.heap(st or k.s, 'NaryOp', 'm_args', p), o.ref)
    return h('len'), h('at', 'm_arg')


def upd(k, what):
    l0, a0 = args_of(k, k.s0)
    l1, a1 = args_of(k)
    return what(l0, a0, l1, a1)


def keepshape(k):
    h = lambda s, f: A(k.X.heap(s, 'Basic', 'm_shape', (f,)), k.this.ref)
    return ('the shape is kept', z3.And([h(k.s, f) == h(k.s0, f) for f in ('m_ndim', 'm_dim1', 'm_dim2', 'm_numElem')]))


def pure(key, pre, val_):
    """observer: its value"""
    c = contract(key, pre=pre, post=lambda k: [('value', k.ret.x == val_(k))])
    return c


pure(B + 'NaryOp::getArgsSize() const', None, lambda k: args_of(k, k.s0)[0])
pure(B + 'NaryOp::getArg(unsigned long) const', lambda k: [('index of an argument', z3.And(iv(k, 0) >= 0, iv(k, 0) < args_of(k, k.s0)[0]))], lambda k: A(args_of(k, k.s0)[1], iv(k, 0)))
contract(B + 'NaryOp::setArg(unsigned long, %s const&)' % BP, mut=True, pre=lambda k: [('index of an argument', z3.And(iv(k, 0) >= 0, iv(k, 0) < args_of(k, k.s0)[0]))],
         post=lambda k: [('the argument is set, no other', upd(k, lambda l0, a0, l1, a1: z3.And(l1 == l0, a1 == z3.Store(a0, iv(k, 0), val(k, 1))))), keepshape(k)])
contract(B + 'NaryOp::addArg(%s const&)' % BP, mut=True, post=lambda k: [('the argument is added at the end', upd(k, lambda l0, a0, l1, a1: z3.And(l1 == l0 + 1, a1 == z3.Store(a0, l0, val(k, 0))))), keepshape(k)])
contract(B + 'NaryOp::clearArgs()', mut=True, post=lambda k: [('no arguments', args_of(k)[0] == 0), keepshape(k)])
contract(B + 'NaryOp::reserveArgs(unsigned long)', mut=True, post=lambda k: [('nothing changes', upd(k, lambda l0, a0, l1, a1: z3.And(l1 == l0, a1 == a0))), keepshape(k)])


def vec(k, i):
    v = k.X.rv(k.s0, k.args[i])
    return v.d[('len',)], v.d[('at',)]


def scalar_shape(k):
    h = lambda f: A(k.X.heap(k.s, 'Basic', 'm_shape', (f,)), k.this.ref)
    return ('the shape is that of a scalar', z3.And(h('m_ndim') == 0, h('m_dim1') == 1, h('m_dim2') == 1, h('m_numElem') == 1))


def copied(k, n, src, upto=None):
    W = k.W
    l, a = args_of(k)
    return z3.And(l == n, W.all(W.Int, lambda j: z3.Implies(z3.And(j >= 0, j < n), A(a, j) == A(src, j)), lambda j: [A(a, j)]))


def same_heap_shape(k, e):
    """shape of the object as on entry of the loop"""
    h = lambda s, f: A(k.X.heap(s, 'Basic', 'm_shape', (f,)), k.this.ref)
    return ('shape', z3.And([h(k.s, f) == h(e.s, f) for f in ('m_ndim', 'm_dim1', 'm_dim2', 'm_numElem')]))


VEC = 'std::vector<%s, std::allocator<%s > > const&' % (BP, BP)
contract(B + 'NaryOp::NaryOp(Symbolics::_BASIC_TYPE, %s)' % VEC, mut=True,
         post=lambda k: [('the arguments are those given', copied(k, *vec(k, 1))), scalar_shape(k)],
         loops=[Loop(lambda k, e, p: [('as many as were passed', z3.And(p >= 0, p <= vec(k, 1)[0])), ('arguments so far', copied(k, p, vec(k, 1)[1])), same_heap_shape(k, e), others(k, e, k.this.ref)])])


# ---------------------------------------------------------------- Matrix: places
def m0(k, i=None):
    return M(k, k.this if i is None else k.args[i], k.s0)


def m1(k):
    return M(k, k.this, k.s)


def mret(k):
    return M(k, k.ret, k.s)


def order(k, *mats, more=()):
    return [('the matrices are in order', z3.And([m.wf() for m in mats] + list(more)))]


def self_order(k):
    return order(k, m0(k))


def getnum(key, exact):
    contract(key, exact=exact, pre=lambda k: [('the shape is in order', z3.And(m0(k).shape().wf(), z3.Implies(m0(k).sym, m0(k).d1 == m0(k).d2)))], post=lambda k: [('number of the stored elements', k.ret.x == m0(k).num())]).define = ('tri',)


def getindex(key, exact):
    contract(key, exact=exact, pre=lambda k: [('the shape is in order', z3.And(m0(k).shape().wf(), z3.Implies(m0(k).sym, m0(k).d1 == m0(k).d2))), ('not negative', z3.And(iv(k, 0) >= 0, iv(k, 1) >= 0))],
             post=lambda k: [('place of the element', z3.Implies(m0(k).inside(iv(k, 0), iv(k, 1)), k.ret.x == idx(k.W, m0(k).sym, m0(k).d1, m0(k).d2, iv(k, 0), iv(k, 1)))),
                             ('not negative', z3.Implies(m0(k).inside(iv(k, 0), iv(k, 1)), k.ret.x >= 0))]).define = ('idx',)


for _c in OWN:
    getnum(B + _c + '::getNumEl() const', True)
    getindex(B + _c + '::getIndex(unsigned long, unsigned long) const', True)


def flat(m, i):
    return z3.And(i >= 0, i < m.num())


inr = lambda k: m0(k).inside(iv(k, 0), iv(k, 1))
contract(B + 'Matrix::get(unsigned long, unsigned long) const', pre=lambda k: self_order(k) + [('not negative', z3.And(iv(k, 0) >= 0, iv(k, 1) >= 0))],
         post=lambda k: [('only indices of elements', inr(k)), ('the element', k.ret.x == m0(k).el(iv(k, 0), iv(k, 1)))], exc=lambda k: [('no such element', z3.Not(inr(k)))])
contract(B + 'Matrix::get(unsigned long) const', pre=lambda k: self_order(k) + [('not negative', iv(k, 0) >= 0)],
         post=lambda k: [('only indices of elements', flat(m0(k), iv(k, 0))), ('the element', k.ret.x == A(m0(k).at, iv(k, 0)))], exc=lambda k: [('no such element', z3.Not(flat(m0(k), iv(k, 0))))])
contract(B + 'Matrix::set(unsigned long, unsigned long, %s const&)' % BP, mut=True, pre=lambda k: self_order(k) + [('not negative', z3.And(iv(k, 0) >= 0, iv(k, 1) >= 0))],
         post=lambda k: [('only indices of elements', inr(k)), ('the shape is kept', m1(k).same(m0(k))),
                         ('the element is set', m1(k).el(iv(k, 0), iv(k, 1)) == val(k, 2)), ('no other argument', m1(k).at == z3.Store(m0(k).at, idx(k.W, m0(k).sym, m0(k).d1, m0(k).d2, iv(k, 0), iv(k, 1)), val(k, 2)))],
         exc=lambda k: [('no such element', z3.Not(inr(k)))])
contract(B + 'Matrix::set(unsigned long, %s const&)' % BP, mut=True, pre=lambda k: self_order(k) + [('not negative', iv(k, 0) >= 0)],
         post=lambda k: [('only indices of elements', flat(m0(k), iv(k, 0))), ('the shape is kept', m1(k).same(m0(k))), ('the element is set, no other', m1(k).at == z3.Store(m0(k).at, iv(k, 0), val(k, 1)))],
         exc=lambda k: [('no such element', z3.Not(flat(m0(k), iv(k, 0))))])


# ---------------------------------------------------------------- invariants of the usual loops
def new(k):
    return k.newobj(OWN)


def this(k):
    return k.this


def nest(target, G, swap=False):
    """row by row (swap: column by column) the elements get the values of G"""
    def outer(k, e, p):
        o = target(k)
        t, t0 = M(k, o), M(k, o, e.s)
        return [('shape', t.same(t0)), ('elements so far', t.all(lambda r, c: t.el(r, c) == z3.If((c if swap else r) < p, G(k, r, c), t0.el(r, c)))), others(k, e, o.ref)]

    def inner(k, e, p):
        o = target(k)
        q = k.outer()
        t, t0 = M(k, o), M(k, o, e.s)
        a = lambda r, c: z3.And(c == q, r < p) if swap else z3.And(r == q, c < p)
        return [('shape', t.same(t0)), ('elements so far', t.all(lambda r, c: t.el(r, c) == z3.If(a(r, c), G(k, r, c), t0.el(r, c)))), others(k, e, o.ref)]
    return [Loop(outer), Loop(inner)]


def lin(target, F):
    """argument by argument"""
    def inv(k, e, p):
        o = target(k)
        W = k.W
        t, t0 = M(k, o), M(k, o, e.s)
        return [('shape', t.same(t0)), ('arguments so far', W.all(W.Int, lambda j: z3.Implies(z3.And(j >= 0, j < t.len), A(t.at, j) == z3.If(j < p, F(k, j), A(t0.at, j))), lambda j: [A(t.at, j)])), others(k, e, o.ref)]
    return [Loop(inv)]


def fill(target, G):
    """a full matrix gets its elements row by row at the end of its arguments"""
    ix = lambda t, r, c: idx(t.W, t.W.false(), t.d1, t.d2, r, c)

    def sofar(k, t, m, n):
        W = k.W
        return W.all([W.Int, W.Int], lambda r, c: z3.Implies(z3.And(t.inside(r, c), z3.Or(r < m, z3.And(r == m, c < n))), A(t.at, ix(t, r, c)) == G(k, r, c)), lambda r, c: [] if W.finite else [ix(t, r, c)])

    def outer(k, e, p):
        o = target(k)
        t, t0 = M(k, o), M(k, o, e.s)
        return [('shape', z3.And(t.shape().eq(t0.shape()), t.ne == t0.ne)), ('rows', p <= t.d1), ('number of the arguments', t.len == ix(t, p, k.W.i(0))), ('elements so far', sofar(k, t, p, k.W.i(0))), others(k, e, o.ref)]

    def inner(k, e, p):
        o = target(k)
        t, t0 = M(k, o), M(k, o, e.s)
        q = k.outer()
        return [('shape', z3.And(t.shape().eq(t0.shape()), t.ne == t0.ne)), ('columns', p <= t.d2), ('number of the arguments', t.len == ix(t, q, p)), ('elements so far', sofar(k, t, q, p)), others(k, e, o.ref)]
    return [Loop(outer), Loop(inner)]


def push(target, F, n):
    """arguments are added one by one"""
    def inv(k, e, p):
        o = target(k)
        W = k.W
        t, t0 = M(k, o), M(k, o, e.s)
        return [('shape', z3.And(t.shape().eq(t0.shape()), t.ne == t0.ne)), ('number of the arguments', z3.And(t.len == p, p <= n(k))),
                ('arguments so far', W.all(W.Int, lambda j: z3.Implies(z3.And(j >= 0, j < p), A(t.at, j) == F(k, j)), lambda j: [A(t.at, j)])), others(k, e, o.ref)]
    return [Loop(inv)]


# ---------------------------------------------------------------- making
def shape_arg(k, i):
    return S(k, k.args[i], st=k.s0)


def has_shape(m, s):
    return z3.And(m.nd == s.nd, m.d1 == s.d1, m.d2 == s.d2, m.ne == s.d1 * s.d2)


zero = lambda W: z3.RealVal(0, W.ctx)
contract(B + 'Matrix::changeShape(Symbolics::Shape const&, bool)', mut=True,
         pre=lambda k: [('shapes are in order', z3.And(m0(k).shape().wf(), shape_arg(k, 0).wf(), z3.Implies(m0(k).sym, shape_arg(k, 0).d1 == shape_arg(k, 0).d2)))],
         post=lambda k: [('the shape is the new one', has_shape(m1(k), shape_arg(k, 0))), ('number of the arguments', m1(k).len == z3.If(k.X.rv(k.s0, k.args[1]).x, m1(k).num(), 0)),
                         ('zeros', k.W.all(k.W.Int, lambda j: z3.Implies(z3.And(j >= 0, j < m1(k).len), A(m1(k).at, j) == zero(k.W)), lambda j: [A(m1(k).at, j)]))],
         loops=push(this, lambda k, j: zero(k.W), lambda k: num(k.W, m0(k).sym, shape_arg(k, 0).d1, shape_arg(k, 0).d2)))
ctor = B + 'Matrix::Matrix'
fl = lambda k: k.X.rv(k.s0, k.args[1]).x
contract(ctor + '(Symbolics::Shape const&, bool)', mut=True, exact=True, pre=lambda k: [('the shape is in order', shape_arg(k, 0).wf())],
         post=lambda k: [('the shape is the given one', has_shape(m1(k), shape_arg(k, 0))), ('number of the arguments', m1(k).len == z3.If(fl(k), shape_arg(k, 0).d1 * shape_arg(k, 0).d2, 0)),
                         ('zeros', k.W.all(k.W.Int, lambda j: z3.Implies(z3.And(j >= 0, j < m1(k).len), A(m1(k).at, j) == zero(k.W)), lambda j: [A(m1(k).at, j)]))])
contract(ctor + '(%s, Symbolics::Shape const&)' % VEC, mut=True, exact=True, pre=lambda k: [('the shape is in order', shape_arg(k, 1).wf())],
         post=lambda k: [('as many elements as the shape has', vec(k, 0)[0] == shape_arg(k, 1).d1 * shape_arg(k, 1).d2), ('the shape is the given one', has_shape(m1(k), S_of(k, 1))), ('the elements are those given', copied(k, *vec(k, 0)))],
         exc=lambda k: [('another number of elements', vec(k, 0)[0] != shape_arg(k, 1).d1 * shape_arg(k, 1).d2)])
S_of = shape_arg
contract(ctor + '(Symbolics::Matrix const&)', mut=True, exact=True, pre=lambda k: order(k, m0(k, 0)),
         post=lambda k: [('the shape is that of the source', m1(k).shape().eq(m0(k, 0).shape())), ('in order', m1(k).wf()),
                         ('the elements are those of the source', m1(k).all(lambda r, c: m1(k).el(r, c) == m0(k, 0).el(r, c)))],
         loops=fill(this, lambda k, r, c: m0(k, 0).el(r, c)))
sctor = B + 'SymmetricMatrix::SymmetricMatrix'
contract(sctor + '(Symbolics::Shape const&)', mut=True, exact=True, pre=lambda k: [('the shape is in order', shape_arg(k, 0).wf())],
         post=lambda k: [('square', shape_arg(k, 0).d1 == shape_arg(k, 0).d2), ('the shape is the given one', has_shape(m1(k), shape_arg(k, 0))), ('in order', m1(k).wf()),
                         ('zeros', k.W.all(k.W.Int, lambda j: z3.Implies(z3.And(j >= 0, j < m1(k).len), A(m1(k).at, j) == zero(k.W)), lambda j: [A(m1(k).at, j)]))],
         exc=lambda k: [('not square', shape_arg(k, 0).d1 != shape_arg(k, 0).d2)])
contract(sctor + '(%s, Symbolics::Shape const&)' % VEC, mut=True, exact=True, pre=lambda k: [('the shape is in order', shape_arg(k, 1).wf())],
         post=lambda k: [('square', shape_arg(k, 1).d1 == shape_arg(k, 1).d2), ('the shape is the given one', has_shape(m1(k), shape_arg(k, 1))), ('in order', m1(k).wf()), ('the elements are those given', copied(k, *vec(k, 0)))],
         exc=lambda k: [('not square, or another number of elements', z3.Or(shape_arg(k, 1).d1 != shape_arg(k, 1).d2, vec(k, 0)[0] != tri(k.W, shape_arg(k, 1).d1)))],
         loops=push(this, lambda k, j: A(vec(k, 0)[1], j), lambda k: vec(k, 0)[0]))
contract(sctor + '(Symbolics::SymmetricMatrix const&)', mut=True, exact=True, pre=lambda k: order(k, m0(k, 0)),
         post=lambda k: [('the shape is that of the source', m1(k).shape().eq(m0(k, 0).shape())), ('in order', m1(k).wf()),
                         ('the elements are those of the source', k.W.all(k.W.Int, lambda j: z3.Implies(z3.And(j >= 0, j < m1(k).len), A(m1(k).at, j) == A(m0(k, 0).at, j)), lambda j: [A(m1(k).at, j)]))],
         loops=push(this, lambda k, j: A(m0(k, 0).at, j), lambda k: m0(k, 0).len))


# ---------------------------------------------------------------- results
def result(key, G, shape=None, pre=None, loops=None, exc=None, mats=None, ok=None, by=None, **kw):
    """a function that returns a matrix: shape(k), elements G(k, r, c); by='args': argument by argument"""
    def post(k):
        r = mret(k)
        s = shape(k) if shape else m0(k)
        out = [('shape of the result', z3.And(r.nd == s.nd, r.d1 == s.d1, r.d2 == s.d2)), ('the result is in order', r.wf())]
        if ok:
            out.append(('only shapes that fit', ok(k)))
        out.append(('elements of the result', r.all(lambda a, b: r.el(a, b) == G(k, a, b))))
        return out
    contract(key, post=post, pre=pre or (lambda k: order(k, *(mats(k) if mats else [m0(k)]))), loops=loops, exc=exc or ((lambda k: [('shapes that do not fit', z3.Not(ok(k)))]) if ok else None), **kw)


def assign(key, G, shape=None, ok=None, loops=None, pre=None, lit=None, **kw):
    """an operator that changes its object"""
    def post(k):
        r = m1(k)
        s = shape(k) if shape else m0(k)
        out = [('shape of the result', z3.And(r.nd == s.nd, r.d1 == s.d1, r.d2 == s.d2)), ('the result is in order', r.wf())]
        if ok:
            out.append(('only shapes that fit', ok(k)))
        out.append(('elements of the result', r.all(lambda a, b: r.el(a, b) == G(k, a, b))))
        return out
    contract(key, mut=True, post=post, pre=pre or self_order, loops=loops, exc=(lambda k: [('shapes that do not fit', z3.Not(ok(k)))]) if ok else None, **kw)


# unary, transposed, assigned
result(B + 'Matrix::operator-() const', lambda k, r, c: -m0(k).el(r, c), loops=nest(new, lambda k, r, c: -m0(k).el(r, c)))
result(B + 'Matrix::transpose() const', lambda k, r, c: m0(k).el(c, r), shape=lambda k: tshape(m0(k).shape()), loops=nest(new, lambda k, r, c: m0(k).el(c, r), swap=True))
result(B + 'SymmetricMatrix::transpose() const', lambda k, r, c: m0(k).el(c, r), shape=lambda k: tshape(m0(k).shape()))


def tshape(s):
    t = S.__new__(S)
    t.W, t.nd, t.d1, t.d2, t.ne = s.W, s.nd, s.d2, s.d1, s.ne
    return t


other = lambda k: k.this.ref != k.args[0].ref
assign(B + 'Matrix::operator=(Symbolics::Matrix const&)', lambda k, r, c: m0(k, 0).el(r, c), shape=lambda k: m0(k, 0).shape(), loops=fill(this, lambda k, r, c: m0(k, 0).el(r, c)),
       pre=lambda k: order(k, m0(k), m0(k, 0), more=[z3.Not(m0(k).sym), other(k)]))


# with numbers
def both(a, b, f):
    """element by element; a scalar goes with every element"""
    return lambda r, c: f(z3.If(a.nd == 0, a.el(a.W.i(0), a.W.i(0)), a.el(r, c)), z3.If(b.nd == 0, b.el(b.W.i(0), b.W.i(0)), b.el(r, c)))


for _o, _f in OPS.items():
    for _n in ('Int', 'Real'):
        G1 = lambda k, r, c, f=_f: f(m0(k).el(r, c), val(k, 0))
        result(B + 'Matrix::operator%s(Symbolics::%s const&) const' % (_o, _n), G1, loops=nest(new, G1))
        F1 = lambda k, j, f=_f: f(A(m0(k).at, j), val(k, 0))
        result(B + 'SymmetricMatrix::operator%s(Symbolics::%s const&) const' % (_o, _n), G1, loops=lin(new, F1))
        for _c in OWN:
            key = B + 'operator%s(Symbolics::%s const&, Symbolics::%s const&)' % (_o, _n, _c)
            G2 = lambda k, r, c, f=_f: f(val(k, 0), m0(k, 1).el(r, c))
            if _c == 'Matrix':
                # the new matrix is a full one, the source may be symmetric: its arguments are those of the copy
                result(key, G2, shape=lambda k: m0(k, 1).shape(), mats=lambda k: [m0(k, 1)],
                       loops=[Loop(lambda k, e, p, f=_f: lin(new, lambda k, j: f(val(k, 0), A(M(k, new(k), e.s).at, j)))[0].inv(k, e, p))])
            else:
                result(key, G2, shape=lambda k: m0(k, 1).shape(), mats=lambda k: [m0(k, 1)], loops=lin(new, lambda k, j, f=_f: f(val(k, 0), A(m0(k, 1).at, j))))
for _c in OWN:
    for _n in ('Symbolics::Int const&', 'Symbolics::Real const&', 'double'):
        result(B + _c + '::operator/(%s) const' % _n, lambda k, r, c: rmul(m0(k).el(r, c), 1 / val(k, 0)))
    assign(B + _c + '::operator/=(double)', lambda k, r, c: rmul(m0(k).el(r, c), 1 / val(k, 0)), loops=lin(this, lambda k, j: rmul(A(m0(k).at, j), 1 / val(k, 0))))


# with matrices
def sumshape(k):
    return pick(m0(k).nd == 0, m0(k, 0).shape(), m0(k).shape())


for _o, _f in list(OPS.items())[:2]:
    G3 = lambda k, r, c, f=_f: both(m0(k), m0(k, 0), f)(r, c)
    okf = lambda k: sum_ok(m0(k).shape(), m0(k, 0).shape())
    result(B + 'Matrix::operator%s(Symbolics::Matrix const&) const' % _o, G3, shape=sumshape, ok=okf, mats=lambda k: [m0(k), m0(k, 0)])
    result(B + 'SymmetricMatrix::operator%s(Symbolics::SymmetricMatrix const&) const' % _o, G3, shape=sumshape, ok=okf, mats=lambda k: [m0(k), m0(k, 0)])
    assign(B + 'Matrix::operator%s=(Symbolics::Matrix const&)' % _o, G3, shape=sumshape, ok=okf,
           pre=lambda k: order(k, m0(k), m0(k, 0), more=[z3.Not(m0(k).sym), z3.Or(other(k), m0(k).nd != 0)]),
           loops=fill(this, G3) + lin(this, lambda k, j, f=_f: f(A(m0(k).at, j), m0(k, 0).el(k.W.i(0), k.W.i(0)))) + nest(this, G3))
    W0 = lambda k: k.W.i(0)
    assign(B + 'SymmetricMatrix::operator%s=(Symbolics::SymmetricMatrix const&)' % _o, G3, shape=sumshape, ok=okf,
           pre=lambda k: order(k, m0(k), m0(k, 0), more=[z3.Or(other(k), m0(k).nd != 0)]),
           loops=push(this, lambda k, j, f=_f: f(A(m0(k).at, W0(k)), A(m0(k, 0).at, j)), lambda k: m0(k, 0).len) + lin(this, lambda k, j, f=_f: f(A(m0(k).at, j), A(m0(k, 0).at, W0(k)))) + lin(this, lambda k, j, f=_f: f(A(m0(k).at, j), A(m0(k, 0).at, j))))
result(B + 'SymmetricMatrix::operator-() const', lambda k, r, c: -m0(k).el(r, c), loops=lin(new, lambda k, j: -A(m0(k).at, j)))


# product
def dot(k, m, n, i):
    W = k.W
    return W.fn('dot', W.Int, W.Int, W.Int, W.Real)(m, n, i)


def mulG(k, r, c):
    a, b = m0(k), m0(k, 0)
    z = k.W.i(0)
    return z3.If(a.nd == 0, rmul(a.el(z, z), b.el(r, c)), z3.If(b.nd == 0, rmul(a.el(r, c), b.el(z, z)), dot(k, r, c, a.d2)))


def dot_setup(k):
    start(k)
    W = k.W
    a, b = M(k, k.this), M(k, k.args[0])
    ax = W.all([W.Int, W.Int], lambda m, n: dot(k, m, n, W.i(0)) == 0, lambda m, n: [dot(k, m, n, W.i(0))])
    k.s.pc.append(ax)
    k.s0.pc.append(ax)
    if W.finite:
        for i in range(0, W.finite + 1):
            k.s.pc.append(W.all([W.Int, W.Int], lambda m, n: dot(k, m, n, W.i(i + 1)) == dot(k, m, n, W.i(i)) + rmul(a.el(m, W.i(i)), b.el(W.i(i), n))))


def dot_step(k, b0, p, m, n):
    a, b = m0(k), m0(k, 0)
    k.s.pc.append(dot(k, m, n, p + 1) == dot(k, m, n, p) + rmul(a.el(m, p), b.el(p, n)))


def prod_loops():
    def vecinv(k, e, p):
        v = k.local('val').x
        return [('sum so far', z3.And(v == dot(k, k.W.i(0), k.W.i(0), p), p <= m0(k).d2))]

    def scal(k, e, p):
        return fill(this, mulG)[0].inv(k, e, p)

    def na(k):
        v = k.local('newArgs')
        return v.d[('len',)], v.d[('at',)]

    def sofar(k, m, n):
        W = k.W
        a, b = m0(k), m0(k, 0)
        l, at = na(k)
        ix = lambda r, c: idx(W, W.false(), a.d1, b.d2, r, c)
        return W.all([W.Int, W.Int], lambda r, c: z3.Implies(z3.And(r >= 0, r < a.d1, c >= 0, c < b.d2, z3.Or(r < m, z3.And(r == m, c < n))), A(at, ix(r, c)) == dot(k, r, c, a.d2)), lambda r, c: [] if W.finite else [ix(r, c)])

    def outer(k, e, p):
        a, b = m0(k), m0(k, 0)
        return [('rows', p <= a.d1), ('number of the elements', na(k)[0] == idx(k.W, k.W.false(), a.d1, b.d2, p, k.W.i(0))), ('elements so far', sofar(k, p, k.W.i(0)))]

    def mid(k, e, p):
        a, b = m0(k), m0(k, 0)
        q = k.outer()
        return [('columns', p <= b.d2), ('number of the elements', na(k)[0] == idx(k.W, k.W.false(), a.d1, b.d2, q, p)), ('elements so far', sofar(k, q, p))]

    def inner(k, e, p):
        return [('sum so far', z3.And(k.local('val').x == dot(k, k.outer(2), k.outer(1), p), p <= m0(k).d2))]

    def copy(k, e, p):
        t, t0 = M(k, k.this), M(k, k.this, e.s)
        l, at = na(k)
        return [('shape', z3.And(t.shape().eq(t0.shape()), t.ne == t0.ne)), ('number of the arguments', z3.And(t.len == p, p <= l)), ('arguments so far', k.W.all(k.W.Int, lambda j: z3.Implies(z3.And(j >= 0, j < p), A(t.at, j) == A(at, j)), lambda j: [A(t.at, j)])), others(k, e, k.this.ref)]
    z = lambda k: k.W.i(0)
    return fill(this, mulG) + lin(this, lambda k, j: rmul(A(m0(k).at, j), m0(k, 0).el(z(k), z(k)))) + [
        Loop(vecinv, ghost=lambda k, b0, p: dot_step(k, b0, p, z(k), z(k))), Loop(outer), Loop(mid), Loop(inner, ghost=lambda k, b0, p: dot_step(k, b0, p, k.outer(2), k.outer(1))), Loop(copy)]


pok = lambda k: prod_ok(m0(k).shape(), m0(k, 0).shape())
assign(B + 'Matrix::operator*=(Symbolics::Matrix const&)', mulG, shape=lambda k: prod(m0(k).shape(), m0(k, 0).shape()), ok=pok,
       pre=lambda k: order(k, m0(k), m0(k, 0), more=[z3.Not(m0(k).sym), other(k)]), loops=prod_loops())
T[B + 'Matrix::operator*=(Symbolics::Matrix const&)'].setup = dot_setup
