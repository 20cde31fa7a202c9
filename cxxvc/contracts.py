"""Contracts on the functions of /repo/symbolics, class invariants, and the verification runner.

A contract says for one function: when it must throw, the shape of its result and the value of its
result as a term over the values of its operands.  At a call the contract is assumed, on the
function's own body it is proved.  See DESIGN.md for the list of what is assumed.
"""
import re, time, sys, z3
from fractions import Fraction as Fr
from engine import *
from engine import NUM
from interp import *
from sem import NFCtx, Bail, rnum, tz, isz, numf
import loops

FN1 = {'Sin': 'sin', 'Cos': 'cos', 'Tan': 'tan', 'Asin': 'asin', 'Acos': 'acos', 'Atan': 'atan', 'Abs': 'abs', 'Sign': 'sign'}
ALL = frozenset(['Int', 'Real', 'Zero', 'Symbol', 'Add', 'Mul', 'Neg', 'Pow', 'Inverse', 'Transpose', 'Skew', 'Scalar', 'Element', 'Outer', 'Solve',
                 'Matrix', 'Atan2', 'If', 'Less', 'Greater', 'Equal', 'Der', 'Jacobian'] + list(FN1))
BP = 'boost::intrusive_ptr<Symbolics::Basic>'


def short(k):
    return (k or '').replace('boost::intrusive_ptr<Symbolics::Basic>', 'BP').replace('boost::intrusive_ptr<Symbolics::Basic const>', 'CBP').replace('Symbolics::', '')


def T(o):
    return ('obj', o)


def scal(s):
    return s.nd == 0 if not isz(s.nd) else s.nd == 0


class MatRef:
    def __init__(self, o):
        self.o = o

    def __eq__(self, x):
        return isinstance(x, MatRef) and x.o is self.o

    def __hash__(self):
        return id(self.o)


# ------------------------------------------------------------------ value of an object read off its fields
def seqterms(e, seq):
    out = []
    for x in seq.flat():
        if isinstance(x, Opq):
            if x.conc is not None:
                out += [T(o) for o in x.conc]
            else:
                if x.total is None:
                    raise Unsupported('opaque segment without total')
                out.append(x.total)
        else:
            if not isinstance(x, Obj):
                raise Unsupported('argument %r' % (x,))
            out.append(T(x))
    return out


def fieldterm(e, o, ty=None):
    """value of o as its own fields define it"""
    ty = ty or o.ty()
    F = lambda n: e.getfield(o, n)
    if ty in FN1:
        return ('fn', FN1[ty], (T(F('m_arg')),))
    if ty == 'Neg':
        return ('neg', T(F('m_arg')))
    if ty == 'Inverse':
        return ('inv', T(F('m_arg')))
    if ty == 'Transpose':
        return ('T', T(F('m_arg')))
    if ty == 'Skew':
        return ('skew', T(F('m_arg')))
    if ty == 'Scalar':
        return ('sca', T(F('m_arg')))
    if ty == 'Der':
        return ('D', T(F('m_arg')), 't')
    if ty == 'Pow':
        return ('pow', T(F('m_arg1')), T(F('m_arg2')))
    if ty == 'Atan2':
        return ('fn', 'atan2', (T(F('m_arg1')), T(F('m_arg2'))))
    if ty == 'Outer':
        return ('mul', T(F('m_arg1')), ('T', T(F('m_arg2'))))
    if ty == 'Solve':
        return ('mul', ('inv', T(F('m_arg1'))), T(F('m_arg2')))
    if ty in ('Less', 'Greater', 'Equal'):
        return ('cmp', {'Less': '<', 'Greater': '>', 'Equal': '=='}[ty], T(F('m_arg1')), T(F('m_arg2')))
    if ty in ('Int', 'Real', 'Bool'):
        return ('num', rnum(F('m_value')))
    if ty == 'Zero':
        return ('zero', o.shape.t())
    if ty == 'Eye':
        return ('eye', o.shape.t())
    if ty == 'Add':
        return ('add', (('zero', o.shape.t()),) + tuple(seqterms(e, F('m_args'))))
    if ty == 'Mul':
        ts = seqterms(e, F('m_args'))
        r = ts[0]
        for t in ts[1:]:
            r = ('mul', r, t)
        return r
    if ty == 'If':
        a = F('m_args').flat()
        return ('ifc', T(a[0]), T(a[1]), T(a[2]))
    if ty == 'Element':
        a = F('m_args').flat()
        return ('el', T(a[0]), F('m_row'), F('m_col'))
    if ty == 'Matrix':
        return ('mat', MatRef(o))
    if ty == 'Jacobian':
        return ('jac', T(F('m_arg1')), T(F('m_arg2')))
    return None


# ------------------------------------------------------------------ class invariants (assumed when a type becomes known)
def inv_unary(rel):
    def f(e, o):
        a = e.obj(shape=rel(e, o), name=o.name + '.a')
        o.fields['m_arg'] = a
        o.fieldepoch = e.epoch
        e.setterm(o, fieldterm(e, o))
    return f


def same_shape(e, o):
    return o.shape.copy()


def inv_binary(rel):
    def f(e, o):
        a, b = rel(e, o)
        o.fields['m_arg1'], o.fields['m_arg2'] = a, b
        o.fieldepoch = e.epoch
        t = fieldterm(e, o)
        if t is not None:
            e.setterm(o, t)
    return f


def be_scalar(e, o):
    if not isz(o.shape.nd):
        if o.shape.nd != 0:
            raise PathEnd('shape')
        return
    e.assume(z3.And(zi(o.shape.nd) == 0, zi(o.shape.d1) == 1, zi(o.shape.d2) == 1))
    o.shape = SC()


def be_square(e, o):
    e.assume(zi(o.shape.d1) == zi(o.shape.d2))
    e.assume(z3.Or(zi(o.shape.nd) == 0, zi(o.shape.nd) == 2))


def be_shape(e, o, nd, a, b):
    e.assume(z3.And(zi(o.shape.nd) == nd, zi(o.shape.d1) == a, zi(o.shape.d2) == b))
    o.shape = ShapeV(nd, a, b)


def i_int(e, o):
    be_scalar(e, o)
    if o.ty() == 'Zero':
        e.setterm(o, ('num', Fr(0)))
        return
    v = z3.Int('i%d' % o.id) if o.ty() == 'Int' else z3.Real('r%d' % o.id)
    old = e.rep(o).term
    o.fields['m_value'] = v
    e.setterm(o, ('num', rnum(v)))


def i_zero(e, o):
    e.setterm(o, ('zero', o.shape.t()))


def i_transpose(e, o):
    o.fields['m_arg'] = e.obj(shape=ShapeV(o.shape.nd, o.shape.d2, o.shape.d1), name=o.name + '.a')
    o.fieldepoch = e.epoch
    e.setterm(o, fieldterm(e, o))


def i_skew(e, o):
    be_shape(e, o, 2, 3, 3)
    o.fields['m_arg'] = e.obj(shape=ShapeV(1, 3, 1), name=o.name + '.a')
    o.fieldepoch = e.epoch
    e.setterm(o, fieldterm(e, o))


def i_scalar(e, o):
    be_scalar(e, o)
    o.fields['m_arg'] = e.obj(shape=SC(), name=o.name + '.a')
    o.fieldepoch = e.epoch
    e.setterm(o, fieldterm(e, o))


def i_inverse(e, o):
    be_square(e, o)
    e.assume(zi(o.shape.nd) == 2)
    o.fields['m_arg'] = e.obj(shape=o.shape.copy(), name=o.name + '.a')
    o.fieldepoch = e.epoch
    e.setterm(o, fieldterm(e, o))


def i_pow(e, o):
    be_square(e, o)
    a = e.obj(shape=o.shape.copy(), name=o.name + '.b')
    b = e.obj(types=NUM, shape=SC(), name=o.name + '.e')
    o.fields['m_arg1'], o.fields['m_arg2'] = a, b
    o.fieldepoch = e.epoch
    v = z3.Real('ex%d' % b.id)
    b.term = ('num', v)
    # a matrix is only raised to an integer power
    e.assume(z3.Or(zi(o.shape.nd) == 0, z3.And(z3.IsInt(v), v != 0)))
    e.setterm(o, fieldterm(e, o))


def i_atan2(e, o):
    be_scalar(e, o)
    o.fields['m_arg1'] = e.obj(shape=SC(), name=o.name + '.y')
    o.fields['m_arg2'] = e.obj(shape=SC(), name=o.name + '.x')
    o.fieldepoch = e.epoch
    e.setterm(o, fieldterm(e, o))


def i_outer(e, o):
    a = e.obj(name=o.name + '.l')
    b = e.obj(name=o.name + '.r')
    for x in (a, b):
        e.assume(z3.And(zi(x.shape.nd) == 1, zi(x.shape.d2) == 1))
    e.assume(a.shape.d1 == b.shape.d1)
    e.assume(z3.And(zi(o.shape.nd) == 2, zi(o.shape.d1) == a.shape.d1, zi(o.shape.d2) == b.shape.d1))
    o.fields['m_arg1'], o.fields['m_arg2'] = a, b
    o.fieldepoch = e.epoch
    e.setterm(o, fieldterm(e, o))


def i_solve(e, o):
    a = e.obj(name=o.name + '.A')
    be_square(e, a)
    b = e.obj(shape=o.shape.copy(), name=o.name + '.b')
    e.assume(a.shape.nd == 2)
    e.assume(zi(o.shape.d1) == a.shape.d1)
    e.assume(z3.And(zi(o.shape.nd) == 1, zi(o.shape.d2) == 1))
    o.fields['m_arg1'], o.fields['m_arg2'] = a, b
    o.fieldepoch = e.epoch
    e.setterm(o, fieldterm(e, o))


def i_cmp(e, o):
    be_scalar(e, o)
    o.fields['m_arg1'] = e.obj(shape=SC(), name=o.name + '.l')
    o.fields['m_arg2'] = e.obj(shape=SC(), name=o.name + '.r')
    o.fieldepoch = e.epoch
    e.setterm(o, fieldterm(e, o))


def i_if(e, o):
    c = e.obj(shape=SC(), name=o.name + '.c')
    a = e.obj(shape=o.shape.copy(), name=o.name + '.a')
    b = e.obj(shape=o.shape.copy(), name=o.name + '.b')
    o.fields['m_args'] = Seq([c, a, b])
    o.fieldepoch = e.epoch
    e.setterm(o, fieldterm(e, o))


def i_element(e, o):
    be_scalar(e, o)
    a = e.obj(name=o.name + '.a')
    e.assume(a.shape.nd >= 1)
    r, c = z3.Int('row%d' % o.id), z3.Int('col%d' % o.id)
    e.assume(z3.And(r >= 0, r < a.shape.d1, c >= 0, c < a.shape.d2))
    ri, ci = e.obj(types=['Int'], shape=SC()), e.obj(types=['Int'], shape=SC())
    e.setterm(ri, ('num', z3.ToReal(r)))
    e.setterm(ci, ('num', z3.ToReal(c)))
    e.assume(z3.And(ri.fields['m_value'] == r, ci.fields['m_value'] == c))
    o.fields['m_args'] = Seq([a, ri, ci])
    o.fields['m_row'], o.fields['m_col'] = r, c
    o.fieldepoch = e.epoch
    e.setterm(o, fieldterm(e, o))


def i_nary(e, o):
    n = z3.Int('n%d.%d' % (o.id, e.epoch))
    e.assume(n >= 1)
    q = Opq(e, n, T(o), owner=o)
    q.kind = o.ty()
    o.fields['m_args'] = Seq([q])
    o.fieldepoch = e.epoch
    o.facts['narytype'] = o.ty()


MATDIMS = [(1, 2, 1), (1, 1, 2), (2, 2, 2), (2, 2, 3), (1, 3, 1), (2, 3, 3), (2, 3, 2), (1, 1, 3)]


def i_matrix(e, o):
    """explicit matrices: every shape up to 3x3, arbitrary elements (bounded)"""
    if 'm_args' in o.fields:
        fresh = [e.obj(shape=SC(), name='%s[%d]' % (o.name, i)) for i in range(len(o.fields['m_args'].segs))]
        for a, b in zip(o.fields['m_args'].segs, fresh):
            e.unify(a, b)
        o.fields['m_args'] = Seq(fresh)
        o.fieldepoch = e.epoch
        return
    e.ctx.bounded = True
    ds = [d for d in MATDIMS]
    k = e.choose(len(ds), 'matrix size')
    nd, a, b = ds[k]
    c = e.shape_eq(o.shape, ShapeV(nd, a, b))
    if c is False:
        raise PathEnd('shape')
    if c is not True:
        e.assume(c)
        if not e.feasible():
            raise PathEnd('shape')
    o.shape = ShapeV(nd, a, b)
    if o.sym is None:
        o.sym = a == b and e.choose(2, 'symmetric') == 1
    n = a * (a + 1) // 2 if o.sym else a * b
    o.fields['m_args'] = Seq([e.obj(shape=SC(), name='%s[%d]' % (o.name, i)) for i in range(n)])
    o.fieldepoch = e.epoch
    t = e.rep(o).term
    e.mats.append(o)
    same_elements(e, e.rep(o))
    if t is not None:
        for i in range(a):
            for j in range(b):
                x = matget(e, o, i, j)
                try:
                    nf = NFCtx(Q(e))
                    e.setterm(x, ('el', t, i, j))
                except Bail:
                    pass


def same_elements(e, r):
    """explicit matrices of one value have the same elements"""
    ms = [m for m in e.mats if e.rep(m) is r]
    if r.built and r.ty() == 'Matrix' and r not in ms:
        ms.append(r)
    for m in ms[1:]:
        d = e.concrete_shape(m.shape)
        for i in range(d[1]):
            for j in range(d[2]):
                e.unify(matget(e, ms[0], i, j), matget(e, m, i, j))


def matget(e, o, i, j):
    """element (i,j) as the real accessor finds it"""
    cls = 'SymmetricMatrix' if o.sym else 'Matrix'
    if isz(i) or isz(j):
        i, j = e.concrete_index(o, [i, j])
        if isz(i) or isz(j):
            raise Bail('symbolic element of a matrix')
    args = o.fields['m_args'].flat()
    k = e.ctx.index(e, cls, o, i, j)
    if isz(k) or k >= len(args):
        raise Bail('element index %s of %s %s' % (k, args, o.shape))
    return args[k]


def i_jac(e, o):
    a = e.obj(name=o.name + '.f')
    b = e.obj(name=o.name + '.q')
    # an object of this type exists only for a vector by a vector: New() turns everything else into an explicit matrix
    for x in (a, b):
        e.assume(zi(x.shape.nd) == 1)
    e.assume(z3.And(zi(o.shape.nd) == 2, zi(o.shape.d1) == zi(a.shape.d1) * zi(a.shape.d2), zi(o.shape.d2) == zi(b.shape.d1) * zi(b.shape.d2)))
    o.fields['m_arg1'], o.fields['m_arg2'] = a, b
    o.fieldepoch = e.epoch
    e.setterm(o, fieldterm(e, o))


def i_symbol(e, o):
    pass


INV = {n: inv_unary(same_shape) for n in FN1}
INV.update({'Neg': inv_unary(same_shape), 'Der': inv_unary(same_shape), 'Transpose': i_transpose, 'Skew': i_skew, 'Scalar': i_scalar, 'Inverse': i_inverse,
            'Pow': i_pow, 'Atan2': i_atan2, 'Outer': i_outer, 'Solve': i_solve, 'Less': i_cmp, 'Greater': i_cmp, 'Equal': i_cmp, 'If': i_if,
            'Element': i_element, 'Add': i_nary, 'Mul': i_nary, 'Matrix': i_matrix, 'Int': i_int, 'Real': i_int, 'Zero': i_zero, 'Jacobian': i_jac, 'Symbol': i_symbol})


def check_invariant(e, o):
    """obligations for an object that was constructed on this path; yields (name, condition)"""
    ty = o.ty()
    F = lambda n: e.getfield(o, n)
    sh = o.shape
    if ty in FN1 or ty in ('Neg', 'Der'):
        yield 'shape of argument', e.shape_eq(F('m_arg').shape, sh)
    elif ty == 'Transpose':
        a = F('m_arg').shape
        yield 'shape', e.shape_eq(ShapeV(a.nd, a.d2, a.d1), sh)
    elif ty == 'Skew':
        yield 'shape', e.shape_eq(ShapeV(2, 3, 3), sh)
        yield 'operand', e.shape_eq(F('m_arg').shape, ShapeV(1, 3, 1))
    elif ty == 'Inverse':
        yield 'shape', e.shape_eq(F('m_arg').shape, sh)
        yield 'square', z3.And(zi(sh.nd) == 2, zi(sh.d1) == zi(sh.d2))
    elif ty in ('Atan2', 'Less', 'Greater', 'Equal'):
        yield 'scalar', zi(sh.nd) == 0
    elif ty == 'Pow':
        yield 'shape', e.shape_eq(F('m_arg1').shape, sh)
        yield 'square', zi(sh.d1) == zi(sh.d2)
        b = F('m_arg2')
        yield 'exponent', b.types <= NUM
        if b.types <= NUM:
            v = tz(exponent(e, b))
            yield 'exponent of a matrix', z3.Or(zi(sh.nd) == 0, v != 0)
    elif ty == 'Add':
        for x in F('m_args').flat():
            if isinstance(x, Obj):
                yield 'operand', z3.Or(zi(x.shape.nd) == 0, z3bool(e.shape_eq(x.shape, sh)))
    elif ty == 'If':
        a = F('m_args').flat()
        yield 'branches', z3.And(z3bool(e.shape_eq(a[1].shape, sh)), z3bool(e.shape_eq(a[2].shape, sh)), zi(a[0].shape.nd) == 0)
    elif ty == 'Outer':
        a, b = F('m_arg1').shape, F('m_arg2').shape
        yield 'shape', z3.And(zi(sh.nd) == 2, zi(sh.d1) == zi(a.d1), zi(sh.d2) == zi(b.d1), zi(a.d1) == zi(b.d1))
    elif ty == 'Solve':
        yield 'shape', z3.And(z3bool(e.shape_eq(F('m_arg2').shape, sh)), zi(sh.d2) == 1, zi(sh.nd) == 1)
    elif ty == 'Matrix':
        d = e.concrete_shape(sh)
        if d is not None:
            n = e.seq_len(F('m_args'))
            yield 'number of elements', n == (d[1] * (d[1] + 1) // 2 if o.sym or getattr(o, 'cls', None) == 'SymmetricMatrix' else d[1] * d[2])
        for x in F('m_args').flat():
            yield 'scalar element', zi(x.shape.nd) == 0
    elif ty == 'Element':
        a = F('m_args').flat()[0].shape
        yield 'index', z3.And(zi(F('m_row')) < zi(a.d1), zi(F('m_col')) < zi(a.d2))


def z3bool(c):
    return z3.BoolVal(c) if isinstance(c, bool) else c


# ------------------------------------------------------------------ shapes
def mulshape(e, a, b):
    """mathematical shape of a product of conforming operands"""
    def pick(cond, x, y):
        if cond is True:
            return x
        if cond is False:
            return y
        return e.shape_ite(cond, x, y)
    ca, cb = a.nd == 0, b.nd == 0
    one = lambda d: z3.If(zi(d) > 1, 1, 0) if isz(d) else int(d > 1)
    nd = one(a.d1) + one(b.d2)
    full = ShapeV(nd, a.d1, b.d2)
    return pick(ca, b, pick(cb, a, full))


def conforms_mul(a, b):
    return z3.Or(zi(a.nd) == 0, zi(b.nd) == 0, zi(a.d2) == zi(b.d1))


def conforms_add(e, a, b):
    return z3.Or(zi(a.nd) == 0, zi(b.nd) == 0, z3bool(e.shape_eq(a, b)))


def addshape(e, a, b):
    c = a.nd == 0
    if c is True:
        return b
    if c is False:
        return a
    return e.shape_ite(c, b, a)


# ------------------------------------------------------------------ contracts
class Out:
    def __init__(self, shape=None, term=None, throws=False, ret='obj', facts=None, exact=None, post=None, types=None, val=None, lenient=None):
        self.shape, self.term, self.throws, self.ret = shape, term, throws, ret
        self.facts = facts          # bool results: function(e, result) assuming what the result says
        self.exact = exact          # bool results: condition the result equals, if known exactly
        self.post = post
        self.types = types
        self.val = val
        self.lenient = lenient      # operands on which either a refusal or a value is acceptable


class Contract:
    raw = False
    related = False
    mkthis = None

    def __init__(self, key, fn, props, pre=None, kind='value', thisty=None, argty=None, scope=None):
        self.key, self.fn, self.props, self.pre, self.kind = key, fn, set(props.split()), pre, kind
        self.thisty = thisty
        self.argty = argty or {}
        self.scope = scope

    def usable(self, e, this, vals):
        return True


def numeric(a):
    return NUM if all(x.types <= NUM for x in a) else None


TABLE = {}      # short key -> Contract


def contract(key, props, fn, **kw):
    TABLE[key] = Contract(key, fn, props, **kw)


# unary functions
for cls, nm in FN1.items():
    contract('%s::New(BP const&)' % cls, 'S01 S05', lambda e, this, a, nm=nm: Out(a[0].shape, ('fn', nm, (T(a[0]),))))
contract('Neg::New(BP const&)', 'S01 S05', lambda e, this, a: Out(a[0].shape, ('neg', T(a[0]))))
contract('Transpose::New(BP const&)', 'S01 S05', lambda e, this, a: Out(ShapeV(a[0].shape.nd, a[0].shape.d2, a[0].shape.d1), ('T', T(a[0]))))
contract('Skew::New(BP const&)', 'S01 S05', lambda e, this, a: Out(ShapeV(2, 3, 3), ('skew', T(a[0])), throws=z3.Not(z3bool(e.shape_eq(a[0].shape, ShapeV(1, 3, 1)))), lenient=zi(a[0].shape.nd) == 0))
contract('Inverse::New(BP const&)', 'S01 S05', lambda e, this, a: Out(a[0].shape, ('inv', T(a[0])), throws=z3.Not(z3.And(zi(a[0].shape.nd) == 2, zi(a[0].shape.d1) == zi(a[0].shape.d2)))),
         scope=lambda e, this, a: zi(a[0].shape.nd) != 0)
contract('Scalar::New(BP const&)', 'S01 S05', lambda e, this, a: Out(SC(), ('sca', T(a[0])), throws=zi(a[0].shape.nd) != 0))
contract('Der::New(BP const&)', 'S01 S03', lambda e, this, a: Out(a[0].shape, ('D', T(a[0]), 't')))
# binary
contract('Add::New(BP const&, BP const&)', 'S01 S05', lambda e, this, a: Out(addshape(e, a[0].shape, a[1].shape), ('add', (('zero', addshape(e, a[0].shape, a[1].shape).t()), T(a[0]), T(a[1]))), throws=z3.Not(conforms_add(e, a[0].shape, a[1].shape)), types=numeric(a)))
contract('Mul::New(BP const&, BP const&)', 'S01 S05', lambda e, this, a: Out(mulshape(e, a[0].shape, a[1].shape), ('mul', T(a[0]), T(a[1])), throws=z3.Not(conforms_mul(a[0].shape, a[1].shape)), types=numeric(a)))
for cls, op in (('Less', '<'), ('Greater', '>'), ('Equal', '==')):
    contract('%s::New(BP const&, BP const&)' % cls, 'S01 S05', lambda e, this, a, op=op: Out(SC(), ('cmp', op, T(a[0]), T(a[1]))), scope=lambda e, this, a: z3.And(zi(a[0].shape.nd) == 0, zi(a[1].shape.nd) == 0))
contract('Atan2::New(BP const&, BP const&)', 'S01 S05', lambda e, this, a: Out(SC(), ('fn', 'atan2', (T(a[0]), T(a[1]))), throws=z3.Not(z3.And(zi(a[0].shape.nd) == 0, zi(a[1].shape.nd) == 0))))
contract('Outer::New(BP const&, BP const&)', 'S01 S05', lambda e, this, a: Out(ShapeV(2, a[0].shape.d1, a[1].shape.d1), ('mul', T(a[0]), ('T', T(a[1]))),
         throws=z3.Not(z3.And(zi(a[0].shape.nd) == 1, zi(a[1].shape.nd) == 1, zi(a[0].shape.d2) == 1, zi(a[1].shape.d2) == 1)), lenient=zi(a[0].shape.d1) != zi(a[1].shape.d1)))
contract('Solve::New(BP const&, BP const&)', 'S01 S05', lambda e, this, a: Out(a[1].shape, ('mul', ('inv', T(a[0])), T(a[1])),
         throws=z3.Not(z3.Or(z3.And(zi(a[0].shape.nd) == 0, zi(a[1].shape.nd) == 0), z3.And(zi(a[0].shape.nd) == 2, zi(a[0].shape.d1) == zi(a[0].shape.d2), zi(a[1].shape.nd) >= 1, zi(a[0].shape.d2) == zi(a[1].shape.d1)))),
         lenient=z3.Or(zi(a[0].shape.nd) == 0, zi(a[1].shape.d2) != 1)))
contract('If::New(BP const&, BP const&, BP const&)', 'S01 S05', lambda e, this, a: Out(a[1].shape, ('ifc', T(a[0]), T(a[1]), T(a[2])),
         throws=z3.Not(z3.And(z3bool(e.shape_eq(a[1].shape, a[2].shape)), zi(a[0].shape.nd) == 0))), scope=lambda e, this, a: zi(a[0].shape.nd) == 0)
contract('Element::New(BP const&, unsigned long, unsigned long)', 'S01 S05 S06', lambda e, this, a: Out(SC(), ('el', T(a[0]), a[1], a[2]),
         throws=z3.Not(z3.And(zi(a[1]) < zi(a[0].shape.d1), zi(a[2]) < zi(a[0].shape.d2)))))


def keeps_value(e, k):
    o = e.obj(shape=k.shape.copy())
    e.setterm(o, T(k))
    return o


def scalarizer(e):
    """a visitor of any history: what it remembers of an expression has the value of the expression"""
    m = MapV()
    m.opq = 'any'
    m.inv = keeps_value
    return Rec('Symbolics::Element::Scalarizer', scalars=m)


contract('Element::Scalarizer::process_Arg(BP const&)', 'S01 S02', lambda e, this, a: Out(a[0].shape, T(a[0])))
TABLE['Element::Scalarizer::process_Arg(BP const&)'].mkthis = scalarizer

# a walk with a visitor that keeps values keeps the value
WALK = ['Add', 'Mul', 'Neg', 'Pow', 'Inverse', 'Transpose', 'Skew', 'Scalar', 'Element', 'Outer', 'Solve', 'Atan2', 'If', 'Less', 'Greater', 'Equal', 'Der'] + list(FN1)
for c in ('Basic', 'Matrix', 'SymmetricMatrix', 'Int', 'Real', 'Zero', 'Symbol'):
    contract('%s::iterateExp(Basic::Iterator&)' % c, 'S01 S02', lambda e, this, a: Out(this.shape, T(this)))


def walked(types, sym=None):
    def f(e):
        o = e.obj(types=types, name='this')
        o.facts['frozen'] = True
        if sym is not None and o.types == {'Matrix'} and bool(o.sym) != sym:
            raise PathEnd('class')
        if sym is False and o.sym is None:
            o.sym = False
        e.this = o
        return o
    return f


for c in ('Basic', 'Matrix', 'SymmetricMatrix', 'Int', 'Real', 'Zero', 'Symbol'):
    TABLE['%s::iterateExp(Basic::Iterator&)' % c].mkthis = walked(WALK if c == 'Basic' else ['Matrix'] if 'Matrix' in c else [c], None if 'Matrix' not in c else c != 'Matrix')


def pow_out(e, this, a):
    sh = a[0].shape
    ex = a[1]
    if ex.types <= NUM:
        v = exponent(e, ex)
        return Out(sh, ('pow', T(a[0]), T(a[1])), throws=z3.Not(zi(sh.d1) == zi(sh.d2)), lenient=z3.And(tz(v) == 1, zi(sh.d1) != zi(sh.d2)))
    return Out(None, None, throws=True)


def exponent(e, ex):
    ex2 = e.rep(ex)
    if ex2.term is None:
        if ex2.built or ex.built:
            return tz(rnum(e.getfield(ex, 'm_value')))
        ex2.term = ('num', z3.Real('ex%d' % ex.id))
    t = ex2.term
    if t[0] == 'num':
        return tz(rnum(t[1]))
    n = NFCtx(Q(e))
    try:
        return tz(n.numval(t))
    except Bail:
        v = z3.Real('ex%d' % ex.id)
        e.setterm(ex, ('num', v))
        return v


contract('Pow::New(BP const&, BP const&)', 'S01 S05', pow_out, pre=lambda e, this, a: e.narrow(a[1], NUM) or be_scalar(e, a[1]),
         scope=lambda e, this, a: z3.Or(zi(a[0].shape.d1) != zi(a[0].shape.d2), zi(a[0].shape.nd) == 0, z3.And(tz(exponent(e, a[1])) != 0, z3.IsInt(tz(exponent(e, a[1]))))) if a[1].types <= NUM else None)


def dmp_pre(e, this, a):
    """dBase is the derivative of the base"""
    e.narrow(a[1], NUM)
    be_scalar(e, a[1])
    e.ctx.WRT = 't'
    e.assume(zi(a[0].shape.d1) == zi(a[0].shape.d2))
    e.assume(zi(a[0].shape.nd) == 2)
    a[2].shape = a[0].shape.copy()
    e.setterm(a[2], ('D', T(a[0]), 't'))


def dmp_out(e, this, a):
    v = exponent(e, a[1])
    if e.ctx.WRT is None:
        raise Unsupported('derMatrixPow outside of a derivative')
    nf = NFCtx(Q(e))
    d = nf.nf(('D', T(a[0]), e.ctx.wrt(e)))
    if not nf.eq(d, nf.nf(T(a[2]))):
        raise Unsupported('derMatrixPow of something that is not the derivative of the base')
    return Out(a[0].shape, ('D', ('pow', T(a[0]), ('num', rnum(v))), e.ctx.wrt(e)), throws=z3.Not(z3.IsInt(tz(v))))


contract('derMatrixPow(BP const&, BP const&, BP const&)', 'S03 S04', dmp_out, pre=dmp_pre, argty={1: list(NUM)}, scope=lambda e, this, a: tz(exponent(e, a[1])) != 0)

# operators
for op, tf in (('+', lambda e, a, b: Out(addshape(e, a.shape, b.shape), ('add', (('zero', addshape(e, a.shape, b.shape).t()), T(a), T(b))), throws=z3.Not(conforms_add(e, a.shape, b.shape)))),
               ('-', lambda e, a, b: Out(addshape(e, a.shape, b.shape), ('add', (('zero', addshape(e, a.shape, b.shape).t()), T(a), ('neg', T(b)))), throws=z3.Not(conforms_add(e, a.shape, b.shape)))),
               ('*', lambda e, a, b: Out(mulshape(e, a.shape, b.shape), ('mul', T(a), T(b)), throws=z3.Not(conforms_mul(a.shape, b.shape))))):
    contract('operator%s(BP const&, BP const&)' % op, 'S01 S05', lambda e, this, a, tf=tf: tf(e, a[0], a[1]))
    for ty in ('double', 'int'):
        def mk(e, this, a, tf=tf, side=0):
            x = numobj(e, a[side])
            return tf(e, x, a[1]) if side == 0 else tf(e, a[0], x)
        contract('operator%s(%s, BP const&)' % (op, ty), 'S01 S05', lambda e, this, a, mk=mk: mk(e, this, a, side=0))
        contract('operator%s(BP const&, %s)' % (op, ty), 'S01 S05', lambda e, this, a, mk=mk: mk(e, this, a, side=1))
contract('operator-(BP const&)', 'S01 S05', lambda e, this, a: Out(a[0].shape, ('neg', T(a[0]))))


def numobj(e, v):
    o = Obj(e, ['Real'], SC())
    o.built = True
    o.fields['m_value'] = v
    return o


def divnz(e, b):
    return z3.Not(z3.And(zi(b.shape.d1) == zi(b.shape.d2)))


def div_out(e, this, a):
    return Out(mulshape(e, a[0].shape, a[1].shape), ('mul', T(a[0]), ('pow', T(a[1]), ('num', Fr(-1)))), throws=z3.Not(z3.And(conforms_mul(a[0].shape, a[1].shape), zi(a[1].shape.d1) == zi(a[1].shape.d2))))


contract('Util::div(BP const&, BP const&)', 'S01 S05', div_out)
contract('Util::sqrt(BP const&)', 'S01 S05', lambda e, this, a: Out(a[0].shape, ('pow', T(a[0]), ('num', Fr(1, 2))), throws=zi(a[0].shape.nd) == 1), scope=lambda e, this, a: zi(a[0].shape.nd) != 2)


# numeric predicates
def z_facts(e, this, a, r):
    o = a[0]
    if r:
        e.setterm(o, ('zero', o.shape.t()))
    elif o.types <= NUM or (o.types & NUM and e.istype(o, NUM)):
        e.assume(tz(exponent(e, o)) != 0)


def iszero_exact(e, this, a):
    o = a[0]
    if e.istype(o, ['Zero']):
        return True
    if e.istype(o, ['Int', 'Real']):
        return tz(exponent(e, o)) == 0
    return None


contract('Util::is_Zero(BP const&)', 'S01 S02 S05 S07', lambda e, this, a: Out(ret='bool', exact=iszero_exact(e, this, a), facts=lambda e, r: r and e.setterm(a[0], ('zero', a[0].shape.t()))), kind='bool')


def one_true(e, o):
    if e.decide(zi(o.shape.nd) == 0):
        e.setterm(o, ('num', Fr(1)))
    elif e.decide(zi(o.shape.nd) == 1):
        e.setterm(o, ('add', (('zero', o.shape.t()), ('num', Fr(1)))))
    else:
        e.assume(zi(o.shape.d1) == zi(o.shape.d2))
        e.setterm(o, ('eye', o.shape.t()))


def isone_exact(e, this, a):
    o = a[0]
    if e.istype(o, ['Int', 'Real']):
        return tz(exponent(e, o)) == 1
    if e.istype(o, ['Zero']):
        return False
    return None


contract('Util::is_One(BP const&)', 'S01 S02 S05 S07', lambda e, this, a: Out(ret='bool', exact=isone_exact(e, this, a), facts=lambda e, r: r and one_true(e, a[0])), kind='bool')


# functions verified with the plain contract of equality: equal implies same value, nothing known otherwise
COARSE = {'operator==(BP const&, BP const&)', 'Zero::operator==(Basic const&) const', 'Util::is_Zero(BP const&)', 'Util::is_One(BP const&)'}


def eq_out(e, this, a):
    x, y = a
    ex = None
    if x is y:
        ex = True
    elif x.types & NUM and y.types & NUM and not (e.ctx.coarse and e.inbody and not (x.types <= NUM and y.types <= NUM)):
        if (x.built or x.types <= NUM or y.types <= NUM) and e.istype(x, NUM) and e.istype(y, NUM):
            zx, zy = x.types == {'Zero'}, y.types == {'Zero'}
            c = z3bool(e.shape_eq(x.shape, y.shape))
            if e.istype(x, ['Zero']):
                ex = z3.And(c, z3.BoolVal(True) if e.istype(y, ['Zero']) else exponent(e, y) == 0)
            elif e.istype(y, ['Zero']):
                ex = z3.And(c, exponent(e, x) == 0)
            else:
                ex = z3.And(c, exponent(e, x) == exponent(e, y))

    def facts(e, r):
        if r:
            e.assume(e.shape_eq(x.shape, y.shape))
            e.unify(x, y)
    return Out(ret='bool', exact=ex, facts=facts)


contract('operator==(BP const&, BP const&)', 'S07 S01 S02', eq_out, kind='bool')
contract('operator!=(BP const&, BP const&)', 'S07', lambda e, this, a: negate(eq_out(e, this, a)), kind='bool')


def value_claim(want):
    def f(e, this, vals, r):
        if not r:
            return None
        w = want(e, vals)
        if w is None:
            return None
        nf = NFCtx(Q(e))
        if nf.eq(nf.nf(T(vals[0])), nf.nf(w)):
            return None
        x = vals[0]
        d = e.concrete_shape(x.shape)
        if d is not None and d[0] > 0 and e.ctx.matclass(e, x) is not None:
            for i in range(d[1]):
                for j in range(d[2]):
                    if not nf.eq(nf.nf(('el', T(x), i, j)), nf.nf(('el', w, i, j))):
                        return Claim('element (%d,%d) of the operand is not known to have that value' % (i, j), (('el', T(x), i, j), ('el', w, i, j)))
            return None
        return Claim('the operand is not known to have that value', (T(vals[0]), w))
    return f


class Claim(str):
    def __new__(cls, s, terms=None, cond=None):
        o = str.__new__(cls, s)
        o.terms, o.cond = terms, cond
        return o


def eq_claim(e, this, vals, r):
    if not r:
        return None
    x, y = vals if this is None else [this] + list(vals)
    c = e.shape_eq(x.shape, y.shape)
    if not (c is True or c is not False and e.entails(c)):
        return Claim('operands of different dimensions compare equal', cond=c)
    if e.rep(x) is e.rep(y):
        return None
    d = e.concrete_shape(x.shape)
    if d is not None and d[0] > 0 and (e.ctx.matclass(e, x) is not None or e.ctx.matclass(e, y) is not None):
        nf = NFCtx(Q(e))
        for i in range(d[1]):
            for j in range(d[2]):
                if not nf.eq(nf.nf(('el', T(x), i, j)), nf.nf(('el', T(y), i, j))):
                    return Claim('element (%d,%d) of the operand is not known to have that value' % (i, j), (('el', T(x), i, j), ('el', T(y), i, j)))
        return None
    return value_claim(lambda e, v: T(y))(e, None, [x], r)


def one_value(e, vals):
    o = vals[0]
    if e.decide(zi(o.shape.nd) == 0):
        return ('num', Fr(1))
    if e.decide(zi(o.shape.nd) == 1):
        return ('add', (('zero', o.shape.t()), ('num', Fr(1))))
    return ('eye', o.shape.t())


TABLE['Util::is_Zero(BP const&)'].claim = value_claim(lambda e, v: ('zero', v[0].shape.t()))
TABLE['Util::is_One(BP const&)'].claim = value_claim(one_value)
TABLE['operator==(BP const&, BP const&)'].claim = eq_claim


def negate(o):
    ex = o.exact
    f = o.facts
    return Out(ret='bool', exact=None if ex is None else (not ex if isinstance(ex, bool) else z3.Not(ex)), facts=lambda e, r: f(e, not r))


def isint_use(e, this, a):
    """a number is integral iff it equals its rounding; at calls the tolerance of 1e-13 counts as equality"""
    o, cell = e.rv(a[0]), a[1]
    if not e.istype(o, ['Int', 'Real']):
        cell.set(0)
        return False
    v = tz(exponent(e, o))
    k = e.int_of(v)
    if k is None:
        if e.decide(z3.IsInt(v)):
            k = e.skolem('int')
            e.assume(z3.ToReal(k) == v)
            e.ints.append((v, k))
    if k is not None:
        k = z3.simplify(k)
        cell.set(k.as_long() if z3.is_int_value(k) else k)
        return True
    kk = e.skolem('round')
    e.assume(z3.And(z3.ToReal(kk) - v <= z3.RealVal('0.5'), v - z3.ToReal(kk) <= z3.RealVal('0.5')))
    cell.set(kk)
    return False


def isint_claim(e, this, vals, r, cell):
    o = vals[0]
    if not e.istype(o, ['Int', 'Real']):
        return None if not r else 'accepts what is not a number'
    v = tz(exponent(e, o))
    k = cell.get()
    k = zi(k) if not isz(k) else k
    d = z3.ToReal(k) - v
    tol = z3.RealVal('0.0000000000001')
    if r:
        return None if e.entails(z3.And(d < tol, d > -tol)) else 'reports an integer away from the value'
    n = e.skolem('whole')
    return None if e.check(v == z3.ToReal(n)) == z3.unsat else 'an integral number is not recognised'


contract('Util::is_Int(BP const&, int&)', 'S01 S02', lambda e, this, a: Out(ret='bool'), kind='bool')
TABLE['Util::is_Int(BP const&, int&)'].raw = True
TABLE['Util::is_Int(BP const&, int&)'].rawuse = isint_use
TABLE['Util::is_Int(BP const&, int&)'].rawclaim = isint_claim


# constants
def const_out(t, v):
    return lambda e, this, a: Out(SC(), ('num', Fr(v)), types=[t])


contract('Int::getOne()', 'S01', const_out('Int', 1))
contract('Int::getMinusOne()', 'S01', const_out('Int', -1))
contract('Int::getZero()', 'S01', lambda e, this, a: Out(SC(), ('num', Fr(0)), types=NUM))
contract('Int::New(int)', 'S01', lambda e, this, a: Out(SC(), ('num', rnum(a[0])), types=NUM))
contract('Real::New(double)', 'S01', lambda e, this, a: Out(SC(), ('num', rnum(a[0])), types=NUM))
contract('Zero::getZero()', 'S01', lambda e, this, a: Out(SC(), ('num', Fr(0)), types=['Zero']))
contract('Zero::getZero(Shape const&)', 'S01 S05', lambda e, this, a: Out(a[0], ('zero', a[0].t()), types=['Zero']))
contract('Eye::getEye()', 'S01', lambda e, this, a: Out(SC(), ('num', Fr(1)), types=['Eye']))
contract('Util::eye(Shape const&)', 'S01 S05', lambda e, this, a: Out(a[0], ('eye', a[0].t()), throws=z3.Or(zi(a[0].nd) == 1, zi(a[0].d1) != zi(a[0].d2))))
contract('Util::intDbl(BP const&)', 'S01', lambda e, this, a: Out(SC(), T(a[0]), types=['Real'], throws=not (a[0].types <= {'Int', 'Real'})), argty={0: ['Int', 'Real']})

# shapes
contract('Shape::operator+(Shape const&) const', 'S05', lambda e, this, a: Out(ret='shape', val=addshape(e, this, a[0]), throws=z3.Not(conforms_add(e, this, a[0]))))
contract('Shape::operator*(Shape const&) const', 'S05', lambda e, this, a: Out(ret='shape', val=mulshape(e, this, a[0]), throws=z3.Not(conforms_mul(this, a[0]))))
contract('Shape::operator==(Shape const&) const', 'S05', lambda e, this, a: Out(ret='bool', exact=e.shape_eq(this, a[0])), kind='bool')
contract('Shape::operator!=(Shape const&) const', 'S05', lambda e, this, a: Out(ret='bool', exact=(lambda c: not c if isinstance(c, bool) else z3.Not(c))(e.shape_eq(this, a[0]))), kind='bool')

# methods of the classes: value preserved / derivative / substitution
CLASSES = ['Add', 'Mul', 'Neg', 'Pow', 'Inverse', 'Transpose', 'Skew', 'Scalar', 'Element', 'Outer', 'Solve', 'Matrix', 'Atan2', 'If', 'Less', 'Greater', 'Equal',
           'Der', 'Jacobian', 'Int', 'Real', 'Zero', 'Symbol'] + list(FN1)


def simp_out(e, this, a):
    return Out(this.shape, T(this), ret='obj', types=NUM if this.types <= NUM else None)


def der_out(e, this, a):
    return Out(this.shape, ('D', T(this), 't'))


def pder_out(e, this, a):
    return Out(this.shape, ('D', T(this), T(a[0])), throws=False)


for c in CLASSES:
    contract('%s::simplify()' % c, 'S02', simp_out, kind='simp', thisty=c)
    if c not in ('Less', 'Greater', 'Equal', 'Jacobian', 'Der'):
        sc = (lambda e, this, a: zi(this.shape.nd) == 0) if c in FN1 else None
        contract('%s::der()' % c, 'S03', der_out, thisty=c, scope=sc)
        contract('%s::der(BP const&)' % c, 'S04', pder_out, thisty=c, argty={0: ['Symbol']}, scope=lambda e, this, a, sc=sc: z3.And(zi(a[0].shape.nd) == 0, sc(e, this, a) if sc else True))


# structural equality per class, against an operand of any kind: equal operands have the same dimensions and value
UN = ['Neg', 'Transpose', 'Skew', 'Scalar', 'Inverse', 'Der'] + [n for n in FN1]
BIN = ['Pow', 'Outer', 'Solve', 'Atan2', 'Less', 'Greater', 'Equal']
EQCLS = {'UnaryOp': UN, 'BinaryOp': BIN, 'NaryOp': ['Element'], 'Add': ['Add'], 'Mul': ['Mul'], 'If': ['If'], 'Matrix': ['Matrix'], 'Int': ['Int'], 'Real': ['Real'],
         'Zero': ['Zero'], 'Symbol': ['Symbol']}


def few_operands(e, this, a):
    o = a[0]
    if this.types & {'Add', 'Mul'}:
        # multisets: up to three operands on either side (different numbers of operands never compare equal: returns false)
        if not e.istype(o, this.types):
            return
        e.ctx.bounded = True
        k = 1 + e.choose(3, 'operands')
        for x in (this, o):
            q = e.getfield(x, 'm_args').segs[0]
            e.assume(q.n == k)
            if not e.feasible() or not e.materialise(q):
                raise PathEnd('operands')


for c in EQCLS:
    k = '%s::operator==(Basic const&) const' % c
    contract(k, 'S07', lambda e, this, a: Out(ret='bool'), kind='bool', pre=few_operands)
    TABLE[k].mkthis = walked(EQCLS[c])
    TABLE[k].claim = eq_claim


# substitution of a symbol
def sub_pre(e, this, a):
    e.assume(e.shape_eq(a[0].shape, a[1].shape))


def sub_out(e, this, a):
    return Out(this.shape, ('sub', T(this)))


SUBCLS = {'UnaryOp': UN, 'BinaryOp': BIN, 'NaryOp': ['Element', 'Add', 'Mul', 'If', 'Matrix'], 'SymmetricMatrix': ['Matrix'], 'Int': ['Int'], 'Real': ['Real'],
          'Zero': ['Zero'], 'Symbol': ['Symbol']}
for c in SUBCLS:
    k = '%s::subs(CBP const&, BP const&)' % c
    contract(k, 'S08', sub_out, pre=sub_pre, argty={0: ['Symbol']})
    TABLE[k].mkthis = walked(SUBCLS[c], c == 'SymmetricMatrix' if c in ('NaryOp', 'SymmetricMatrix') else None)


# the order of sorted containers: irreflexive, asymmetric, and operands neither of which precedes the other have the same value
LTCLS = dict((k, v) for k, v in EQCLS.items() if k not in ('NaryOp', 'Add', 'Mul', 'If'))
LTCLS['NaryOp'] = ['Element', 'Add', 'Mul', 'If']


def one_type(e, this, a):
    if this is None:
        this, a = a[0], a[1:]
    ts = sorted(this.types)
    if len(ts) > 1:
        e.narrow(this, [ts[e.choose(len(ts), 'class')]])
    if this.types & {'Add', 'Mul'} and e.istype(a[0], this.types):
        # up to three operands on either side
        e.ctx.bounded = True
        for x in (this, a[0]):
            q = e.getfield(x, 'm_args').segs[0]
            e.assume(q.n == 1 + e.choose(3, 'operands'))
            if not e.feasible() or not e.materialise(q):
                raise PathEnd('operands')


def order_claim(e, this, vals, r):
    x, y = vals if this is None else [this] + list(vals)
    f = e.P.funcs[e.ctx.key]
    r2 = e.body(f, None, [y, x]) if this is None else e.body(e.ctx.dispatch(e, y, f), y, [x])
    r2 = e.rv(r2) if not isinstance(r2, (bool, int)) and not isz(r2) else r2
    if not isinstance(r2, bool):
        r2 = e.decide(r2)
    if r and r2:
        return Claim('each of the operands precedes the other')
    if r or r2:
        return None
    t = eq_claim(e, this, vals, True)
    if not t:
        # ... and they are equal
        g = e.P.funcs[e.ctx.key.replace('operator<', 'operator==')] if this is None else e.ctx.dispatch(e, this, e.P.funcs[e.ctx.key.replace('operator<', 'operator==')])
        r3 = e.body(g, None, [x, y]) if this is None else e.body(g, x, [y])
        r3 = e.rv(r3) if not isinstance(r3, (bool, int)) and not isz(r3) else r3
        if r3 is not True and not e.decide(r3):
            return Claim('neither operand precedes the other, but they are not equal')
    return Claim('neither operand precedes the other: ' + t, t.terms, t.cond) if t else None


for c in LTCLS:
    k = '%s::operator<(Basic const&) const' % c
    contract(k, 'S07', lambda e, this, a: Out(ret='bool'), kind='bool', pre=one_type)
    TABLE[k].mkthis = walked(LTCLS[c])
    TABLE[k].claim = order_claim
    TABLE[k].related = True
k = 'operator<(BP const&, BP const&)'
contract(k, 'S07', lambda e, this, a: Out(ret='bool'), kind='bool', pre=one_type)
TABLE[k].claim = order_claim
TABLE[k].related = True
