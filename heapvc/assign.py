"""Contracts of Assignments: what the writers get is the equations in their order."""
import z3
from core import *
from execute import Contract, Loop, Call
from deps import A, M, NP


def put(T):
    import contracts as C

    def contract(key, **kw):
        call = T[key].call if key in T else None
        T[key] = Contract(key, **kw)
        T[key].call = kw.get('call') or call
        return T[key]
    R = lambda k: (k.this.ref if isinstance(k.this, Obj) else k.this.x)
    FL = (('category',), ('implizit',), ('lhs', 'len'), ('lhs', 'at'), ('rhs', 'len'), ('rhs', 'at'))

    def is_of(k, get, n):
        """the assignment with the leaves get(path) is the equation of node n"""
        W = k.W
        e = A(k.heap('Node', 'm_eqn'), n)
        h = lambda f, *p: A(k.heap('Equation', f, *p), e)
        side = lambda a, b: z3.And(get(a, 'len') == h(b, 'len'), W.all(W.Int, lambda i: z3.Implies(z3.And(0 <= i, i < h(b, 'len')), A(get(a, 'at'), i) == A(h(b, 'at', 'm_arg'), i))))
        return z3.And(get('category') == h('m_category'), get('implizit') == h('m_implizit'), side('lhs', 'm_lhs'), side('rhs', 'm_rhs'))

    AC = 'Symbolics::Graph::Assignment::Assignment(%s)' % NP

    def own(k):
        return lambda f, *p: A(k.heap('Assignment', f, *p), R(k))

    def node(k):
        a = k.arg(0)
        return a.ref if isinstance(a, Obj) else a.x

    def side_loop(f, g):
        def inv(k, e, i):
            W = k.W
            get = own(k)
            q = A(k.heap('Node', 'm_eqn'), node(k))
            src = A(k.heap('Equation', g, 'at', 'm_arg'), q)
            n = A(k.heap('Equation', g, 'len'), q)
            return [('as many as passed', z3.And(get(f, 'len') == i, i <= n)), ('the same', W.all(W.Int, lambda j: z3.Implies(z3.And(0 <= j, j < i), A(get(f, 'at'), j) == A(src, j))))]
        return Loop(inv, tag=g)
    contract(AC, post=lambda k: [('the equation of the node', is_of(k, own(k), node(k)))], exc=lambda k: [('only null is refused', node(k) == k.W.null)],
             loops=[side_loop('lhs', 'm_lhs'), side_loop('rhs', 'm_rhs')],
             call=lambda X, c, k, rty: X.apply(c, k, [('Assignment', f) for f in ('category', 'implizit', 'lhs', 'rhs')], rty))

    # ---- filters that keep the order
    class F:
        """ghosts: where element i of the source went (-1: nowhere), and back"""

        def __init__(self, k):
            self.to, self.back = k.g('to'), k.g('back')

    GH = {'to': lambda W: W.fresh('to', z3.ArraySort(W.Int, W.Int)), 'back': lambda W: W.fresh('back', z3.ArraySort(W.Int, W.Int))}

    def filtered(k, i, n, keep, same):
        """the first i elements of the source were filtered into n elements"""
        W = k.W
        f = F(k)
        src = lambda j: z3.And(0 <= j, j < i)
        return [('exactly the elements that are kept', W.all(W.Int, lambda j: z3.Implies(src(j), z3.And((A(f.to, j) >= 0) == keep(j), z3.Implies(A(f.to, j) >= 0, z3.And(A(f.to, j) < n, A(f.back, A(f.to, j)) == j)))))),
                ('in their order', W.all([W.Int, W.Int], lambda a, b: z3.Implies(z3.And(src(a), src(b), a < b, A(f.to, a) >= 0, A(f.to, b) >= 0), A(f.to, a) < A(f.to, b)))),
                ('nothing else', z3.And(n >= 0, W.all(W.Int, lambda p: z3.Implies(z3.And(0 <= p, p < n), z3.And(src(A(f.back, p)), A(f.to, A(f.back, p)) == p))))),
                ('unchanged', W.all(W.Int, lambda p: z3.Implies(z3.And(0 <= p, p < n), same(p, A(f.back, p)))))]

    def note(keep, length):
        def g(k, b, i):
            f = F(k)
            W = k.W
            c = keep(b, i)
            n0 = length(b)
            k.s.ghost['to'] = z3.Store(f.to, i, z3.If(c, n0, W.i(-1)))
            k.s.ghost['back'] = z3.Store(f.back, n0, z3.If(c, i, A(f.back, n0)))
        return g

    AS = C.AS
    mass = lambda k: (lambda *p: A(k.heap('Assignments', 'm_assignments', *p), R(k)))

    def as_keep(k, j):
        at = k.arg(0).d[('at',)]
        c = A(k.heap('Equation', 'm_category'), A(k.heap('Node', 'm_eqn'), A(at, j)))
        return k.W.band(c, k.X.bits('|', k.en('PARAMETER'), k.en('CONSTANT'))) == 0

    def as_same(k):
        g = mass(k)
        at = k.arg(0).d[('at',)]
        return lambda p, j: is_of(k, lambda f, *q: A(g('at', f, *q), p), A(at, j))

    def syms(k):
        v = lambda *p: A(k.heap('Assignments', 'm_symbols', *p), R(k))
        return v('len'), v('at')

    def eqsyms(k, j):
        return A(k.heap('Equation', 'm_symbols', 'dom'), A(k.heap('Node', 'm_eqn'), A(k.arg(0).d[('at',)], j)))

    def once(k):
        """m_symbols: every symbol once, exactly those in vars"""
        W = k.W
        n, at = syms(k)
        vs = k.local('vars').d[('dom',)]
        sp = k.g('place')
        return [('symbols: exactly those noted', z3.And(n >= 0, W.all(W.Int, lambda p: z3.Implies(z3.And(0 <= p, p < n), z3.And(A(vs, A(at, p)), A(sp, A(at, p)) == p))),
                                                        W.all(W.Ref, lambda s: z3.Implies(A(vs, s), z3.And(0 <= A(sp, s), A(sp, s) < n, A(at, A(sp, s)) == s)))))]

    def as_loop(k, e, i):
        W = k.W
        n = mass(k)('len')
        vs = k.local('vars').d[('dom',)]
        return filtered(k, i, n, lambda j: as_keep(k, j), as_same(k)) + once(k) + [
            ('symbols of the nodes passed', W.all([W.Int, W.Ref], lambda j, s: z3.Implies(z3.And(0 <= j, j < i, A(eqsyms(k, j), s)), A(vs, s))))]

    def as_place(k, b, seen):
        n0, n1 = syms(b)[0], syms(k)[0]
        at = syms(k)[1]
        p = k.g('place')
        for j in (0, 1):
            x = A(at, n0 + j)
            p = z3.Store(p, x, z3.If(n1 > n0 + j, n0 + j, A(p, x)))
        k.s.ghost['place'] = p

    def as_inner(k, e, seen):
        W = k.W
        vs, v0 = k.local('vars').d[('dom',)], e.local('vars').d[('dom',)]
        return once(k) + [('symbols stay', W.all(W.Ref, lambda s: z3.Implies(A(v0, s), A(vs, s)))), ('symbols passed', W.all(W.Ref, lambda s: z3.Implies(A(seen, s), A(vs, s))))]

    def as_post(k):
        W = k.W
        n, at = syms(k)
        N = k.arg(0).d[('len',)]
        return filtered(k, N, mass(k)('len'), lambda j: as_keep(k, j), as_same(k)) + [
            ('every symbol once', W.all([W.Int, W.Int], lambda a, b: z3.Implies(z3.And(0 <= a, a < n, 0 <= b, b < n, A(at, a) == A(at, b)), a == b))),
            ('every symbol of the equations', W.all([W.Int, W.Ref], lambda j, s: z3.Implies(z3.And(0 <= j, j < N, A(eqsyms(k, j), s)), W.some(W.Int, lambda p: z3.And(0 <= p, p < n, A(at, p) == s)))))]

    def as_pre(k):
        W = k.W
        a = k.arg(0)
        return [('nodes are not null', W.all(W.Int, lambda j: z3.Implies(z3.And(0 <= j, j < a.d[('len',)]), A(a.d[('at',)], j) != W.null)))]

    contract(AS, pre=as_pre, post=as_post, exc=lambda k: [], ghosts=dict(GH, place=lambda W: W.fresh('place', z3.ArraySort(W.Ref, W.Int)), ud=lambda W: W.fresh('ud', z3.ArraySort(W.Ref, z3.ArraySort(W.Int, W.Ref)))),
             loops=[Loop(as_loop, tag='nodes', ghost=note(as_keep, lambda k: mass(k)('len')), gs=('to', 'back')), Loop(as_inner, tag='m_symbols', ghost=as_place, gs=('place',))])

    # ---- getEquations
    GE = 'Symbolics::Graph::Assignments::getEquations(unsigned int) const'

    def ge_keep(k, j):
        return k.W.band(A(mass(k)('at', 'category'), j), k.arg(0).x) == 0

    def ge_same(k, v):
        g = mass(k)
        return lambda p, j: z3.And([A(v.d[('at',) + q], p) == A(g('at', *q), j) for q in FL])

    def ge_loop(k, e, i):
        v = k.local('res')
        return filtered(k, i, v.d[('len',)], lambda j: ge_keep(k, j), ge_same(k, v))

    contract(GE, post=lambda k: filtered(k, mass(k)('len'), k.ret.d[('len',)], lambda j: ge_keep(k, j), ge_same(k, k.ret)), ghosts=GH,
             loops=[Loop(ge_loop, tag='m_assignments', ghost=note(ge_keep, lambda k: k.local('res').d[('len',)]), gs=('to', 'back'))])
