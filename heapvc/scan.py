"""Contracts of the scan of an equation: m_symbols is what its expressions mention.

whole(p, d, s): expression p mentions symbol s as a whole; elem(p, d, s, ij): its element ij
(d: below a time derivative, where a symbol stands for its derivative).  Both are defined by
recursion over the expression: unfold(p) states their definition at one node."""
import z3
from core import *
from execute import Contract, Loop, Call
from deps import A

DS = 'Symbolics::Graph::Equation::DerivativeScanner::process_Arg(boost::intrusive_ptr<Symbolics::Basic> const&, bool&)'
SC = 'Symbolics::Basic::scanExp(Symbolics::Basic::Scanner&)'
VI = 'Symbolics::Basic::Scanner::process_Arg(boost::intrusive_ptr<Symbolics::Basic> const&, bool&)'
FS = 'Symbolics::Graph::Equation::findSymbols()'


class T:
    """the expression tree and what it mentions"""

    def __init__(self, k):
        W = self.W = k.W
        self.k = k
        R, I, B, P = W.Ref, W.Int, W.Bool, W.Pair
        self.type = W.fn('type', R, I)
        self.argn = W.fn('argn', R, I)
        self.argi = W.fn('argi', R, I, R)
        self.row = W.fn('row', R, I)
        self.col = W.fn('col', R, I)
        self.derof = W.fn('derof', R, R)
        self.whole = W.fn('whole', R, B, R, B)
        self.elem = W.fn('elem', R, B, R, P, B)

    def unfold(self, p):
        W = self.W
        R, I, P = W.Ref, W.Int, W.Pair
        out = [self.argn(p) >= 0]
        if W.finite:
            out.append(self.argn(p) <= W.finite)
        a0 = self.argi(p, W.i(0))
        is_ = lambda x, n: self.type(x) == self.k.en(n)
        sym, der, el = is_(p, 'Type_Symbol'), is_(p, 'Type_Der'), z3.And(is_(p, 'Type_Element'), z3.Or(is_(a0, 'Type_Symbol'), is_(a0, 'Type_Der')))
        for d in (W.false(), W.true()):
            w = lambda x, s: self.whole(x, d, s)
            e = lambda x, s, q: self.elem(x, d, s, q)
            out.append(z3.Implies(sym, W.all(R, lambda s: w(p, s) == (s == (self.derof(p) if z3.is_true(d) else p)))))
            out.append(z3.Implies(sym, W.all([R, P], lambda s, q: z3.Not(e(p, s, q)))))
            if z3.is_false(d):
                out.append(z3.Implies(der, W.all(R, lambda s: w(p, s) == self.whole(a0, W.true(), s))))
                out.append(z3.Implies(der, W.all([R, P], lambda s, q: e(p, s, q) == self.elem(a0, W.true(), s, q))))
            out.append(z3.Implies(el, W.all(R, lambda s: z3.Not(w(p, s)))))
            out.append(z3.Implies(el, W.all([R, P], lambda s, q: e(p, s, q) == z3.And(w(a0, s), q == W.Pair.mk(self.row(p), self.col(p))))))
            oth = z3.Not(z3.Or(sym, der, el))
            rng = lambda i: z3.And(i >= 0, i < self.argn(p))
            out.append(z3.Implies(oth, W.all(R, lambda s: w(p, s) == W.some(I, lambda i: z3.And(rng(i), w(self.argi(p, i), s))))))
            out.append(z3.Implies(oth, W.all([R, P], lambda s, q: e(p, s, q) == W.some(I, lambda i: z3.And(rng(i), e(self.argi(p, i), s, q))))))
        return out


class At:
    """a map of mentioned symbols"""

    def __init__(self, v):
        self.dom, self.kind, self.el = v.d[('dom',)], v.d[('at', 'kind')], v.d[('at', 'elements', 'dom')]


def joined(k, b, a, w, e, inel=None, d1=None, d2=None):
    """a = b and what is mentioned: w(s) as a whole, e(s, q) the element q"""
    W = k.W
    ALL = k.en('ALL')
    R, P = W.Ref, W.Pair
    if inel is None:
        inel, here = W.false(), lambda q: W.false()
    else:
        here = lambda q: z3.And(inel, q == W.Pair.mk(d1, d2))
    return [
        ('mentioned symbols', W.all(R, lambda s: A(a.dom, s) == z3.Or(A(b.dom, s), w(s), W.some(P, lambda q: e(s, q))))),
        ('symbols mentioned as a whole', W.all(R, lambda s: z3.Implies(A(a.dom, s), (A(a.kind, s) == ALL) == z3.Or(z3.And(A(b.dom, s), A(b.kind, s) == ALL), z3.And(z3.Not(inel), w(s)))))),
        ('mentioned elements', W.all([R, P], lambda s, q: z3.Implies(A(a.dom, s), A(a.el, s, q) == z3.Or(z3.And(A(b.dom, s), A(b.el, s, q)), e(s, q), z3.And(here(q), w(s)))))),
    ]


class Sn:
    """the scanner at a state"""

    def __init__(self, k, o):
        f = lambda n: k.X.rv(k.s, k.X.fieldlv(o, n, k.s))
        self.at = At(f('atoms'))
        self.inder, self.inel, self.d1, self.d2 = (f(n).x for n in ('inder', 'inelement', 'dim1', 'dim2'))


def P_(a):
    return a.ref if isinstance(a, Obj) else a.x


def noelem(k, inel, e):
    return [('elements of elements are refused', z3.Implies(inel, k.W.all([k.W.Ref, k.W.Pair], lambda s, q: z3.Not(e(s, q)))))]


def flags(o, n):
    return [('flags as before', z3.And(o.inder == n.inder, o.inel == n.inel, z3.Implies(o.inel, z3.And(o.d1 == n.d1, o.d2 == n.d2))))]


def scanner(k, a):
    """the object that scans; a scanner of another class is not described here"""
    a = k.X.rv(k.s, a) if isinstance(a, LV) else a
    if not isinstance(a, Obj):
        a = Obj(a.x, 'DerivativeScanner')
    if a.cls == 'Scanner':
        a.cls = 'DerivativeScanner'
    if a.cls != 'DerivativeScanner':
        raise Undecided('scanner of class ' + a.cls)
    return a


def havoc(X, o, s):
    lv = X.fieldlv(o, 'atoms', s)
    lv.put(s, X.unknown(lv.t, 'atoms', s))
    for n in ('inder', 'inelement', 'dim1', 'dim2'):
        lv = X.fieldlv(o, n, s)
        lv.put(s, X.unknown(lv.t, n, s))


def apply(X, c, k, o, rty):
    havoc(X, o, k.s)
    if c.exc:
        X.raised.append(k.s.copy())
    k.ret = X.unknown(ty(X.P, rty), 'ret', k.s) if rty and rty != 'void' else None
    k.s.pc += [g for nm, g in c.post(k)]
    return [(k.s, k.ret)]


def put(C):
    def contract(key, **kw):
        C[key] = Contract(key, **kw)

    def pure(key, f, note='observer'):
        C[key] = Contract(key, pure=f, note=note)
    R = lambda k: P_(k.this)
    i_ = lambda x: Val(Ty('int'), {(): x})
    r_ = lambda x, t='boost::intrusive_ptr<Symbolics::Basic>': Val(Ty('ref', t), {(): x})
    pure('Symbolics::Basic::getType() const', lambda k: i_(T(k).type(R(k))))
    pure('Symbolics::Basic::getArgsSize() const', lambda k: i_(T(k).argn(R(k))))
    pure('Symbolics::Basic::getArg(unsigned long) const', lambda k: r_(T(k).argi(R(k), k.arg(0).x)))
    pure('Symbolics::Element::getRow() const', lambda k: i_(T(k).row(R(k))))
    pure('Symbolics::Element::getCol() const', lambda k: i_(T(k).col(R(k))))
    pure('Symbolics::Symbol::getDerivative()', lambda k: r_(T(k).derof(R(k)), 'boost::intrusive_ptr<Symbolics::Symbol>'), 'observer: the symbol that is the derivative')
    pure('Symbolics::Element const* Symbolics::Util::getAsConstPtr<Symbolics::Element>(boost::intrusive_ptr<Symbolics::Basic> const&)', lambda k: r_(P_(k.arg(0)), 'Symbolics::Element const *'), 'the object itself')
    pure('Symbolics::Symbol const* Symbolics::Util::getAsConstPtr<Symbolics::Symbol>(boost::intrusive_ptr<Symbolics::Basic> const&)', lambda k: r_(P_(k.arg(0)), 'Symbolics::Symbol const *'), 'the object itself')

    # ---- one node
    def pa_post(k):
        t, p, o = T(k), P_(k.arg(0)), k.old()
        b, a = Sn(o, k.this), Sn(k, k.this)
        W = k.W
        a0 = t.argi(p, W.i(0))
        n = lambda x: k.en(x)
        leaf = z3.Or(t.type(p) == n('Type_Symbol'), t.type(p) == n('Type_Der'), z3.And(t.type(p) == n('Type_Element'), z3.Or(t.type(a0) == n('Type_Symbol'), t.type(a0) == n('Type_Der'))))
        r = k.ret.x
        same = joined(k, b.at, a.at, lambda s: W.false(), lambda s, q: W.false())
        done = joined(k, b.at, a.at, lambda s: t.whole(p, b.inder, s), lambda s, q: t.elem(p, b.inder, s, q), b.inel, b.d1, b.d2) + noelem(k, b.inel, lambda s, q: t.elem(p, b.inder, s, q))
        return flags(b, a) + [('the arguments are to be scanned', r == z3.Not(leaf))] + \
            [(nm + ' (node)', z3.Implies(z3.Not(r), g)) for nm, g in done] + [(nm + ' unchanged', z3.Implies(r, g)) for nm, g in same] + \
            [('no stop', z3.Implies(r, k.X.rv(k.s, k.args[1]).x == k.X.rv(k.s0, k.args[1]).x))]

    def pa_setup(k):
        k.X.axioms += T(k).unfold(P_(k.arg(0)))

    def pa_call(X, c, k, rty):
        X.axioms += T(k).unfold(P_(k.arg(0)))
        return apply(X, c, Call(X, k.s0, k.s, scanner(k, k.this), k.args), scanner(k, k.this), rty)
    contract(DS, post=pa_post, exc=lambda k: [], call=pa_call, setup=pa_setup)

    # ---- an expression
    def se_post(k):
        t, p, o = T(k), R(k), k.old()
        sc = scanner(k, k.args[0])
        b, a = Sn(o, sc), Sn(k, sc)
        return flags(b, a) + joined(k, b.at, a.at, lambda s: t.whole(p, b.inder, s), lambda s, q: t.elem(p, b.inder, s, q), b.inel, b.d1, b.d2) + noelem(k, b.inel, lambda s, q: t.elem(p, b.inder, s, q))

    def se_setup(k):
        k.X.axioms += T(k).unfold(R(k))
        scanner(k, k.args[0])

    def se_call(X, c, k, rty):
        return apply(X, c, k, scanner(k, k.args[0]), rty)

    def se_loop(k, entry, pos):
        t, p = T(k), R(k)
        sc = scanner(k, k.args[0])
        b, a = Sn(entry, sc), Sn(k, sc)
        W = k.W
        i = pos
        up = lambda f: W.some(W.Int, lambda j: z3.And(j >= 0, j < i, f(t.argi(p, j))))
        return [('position', z3.And(i >= 0, i <= t.argn(p)))] + flags(b, a) + \
            joined(k, b.at, a.at, lambda s: up(lambda x: t.whole(x, b.inder, s)), lambda s, q: up(lambda x: t.elem(x, b.inder, s, q)), b.inel, b.d1, b.d2) + noelem(k, b.inel, lambda s, q: up(lambda x: t.elem(x, b.inder, s, q)))
    contract(SC, post=se_post, exc=lambda k: [], call=se_call, setup=se_setup, loops=[Loop(se_loop)])
    C[VI] = Contract(VI, call=lambda X, c, k, rty: pa_call(X, C[DS], k, rty), abstract=True, note='the scanner is a DerivativeScanner')

    # ---- an equation
    def mentions(k, e, f, n=None, m=None):
        """some expression of the sides: the first n of the right, the first m of the left"""
        W = k.W
        out = []
        for fld, lim in (('m_rhs', n), ('m_lhs', m)):
            ln, at = A(k.heap('Equation', fld, 'len'), e), A(k.heap('Equation', fld, 'at', 'm_arg'), e)
            lim = ln if lim is None else lim
            out.append(W.some(W.Int, lambda j: z3.And(j >= 0, j < lim, f(A(at, j)))))
        return z3.Or(out)

    def fs(k, n=None, m=None):
        t, e, W = T(k), R(k), k.W
        a = At(k.f(e, 'Equation', 'm_symbols'))
        w = lambda s: mentions(k, e, lambda x: t.whole(x, W.false(), s), n, m)
        el = lambda s, q: mentions(k, e, lambda x: t.elem(x, W.false(), s, q), n, m)

        class None_:
            dom = kind = elem = None
        N = None_()
        N.dom, N.kind, N.el = z3.K(W.Ref, W.false()), a.kind, a.el
        return joined(k, N, a, w, el)

    def fs_frame(k):
        o = k.old()
        return [('%s unchanged' % f, z3.And([k.heap('Equation', f, *p) == o.heap('Equation', f, *p) for p in (('len',), ('at', 'm_arg'))])) for f in ('m_lhs', 'm_rhs')]

    def fs_loop(side):
        def inv(k, entry, pos):
            W = k.W
            o = Obj(P_(k.local('scanner')), 'DerivativeScanner') if False else None
            i = pos
            ln = A(k.heap('Equation', 'm_rhs' if side == 0 else 'm_lhs', 'len'), R(k))
            sc = k.X.rv(k.s, k.s.env[[kk for kk, v in k.s.env.items() if isinstance(v, Obj) and v.cls == 'DerivativeScanner'][0]])
            f = Sn(k, sc)
            return [('position', z3.And(i >= 0, i <= ln)), ('flags', z3.And(z3.Not(f.inder), z3.Not(f.inel)))] + (fs(k, i, W.i(0)) if side == 0 else fs(k, None, i)) + fs_frame(k)
        return Loop(inv)

    def fs_call(X, c, k, rty):
        """m_symbols as the contract says"""
        o = Obj(R(k), 'Equation')
        lv = X.fieldlv(o, 'm_symbols', k.s)
        v = X.unknown(lv.t, 'm_symbols', k.s)
        lv.put(k.s, v)
        if 'fresh' in k.s.ghost:
            k.s.ghost['fresh'] = z3.Store(k.s.ghost['fresh'], o.ref, k.W.true())
        return [(k.s, None)]
    contract(FS, post=lambda k: fs(k) + fs_frame(k), exc=lambda k: [], call=fs_call, loops=[fs_loop(0), fs_loop(1)])
