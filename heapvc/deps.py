"""Contracts of the dependencies: every symbol an equation mentions is solved by a parent."""
import z3
from core import *
from execute import Contract, Loop, Call

NP = 'boost::intrusive_ptr<Symbolics::Graph::Node>'


def A(a, *i):
    for k in i:
        a = z3.Select(a, k)
    return a


class M:
    """the observers of a symbol: what the graph does not change"""

    def __init__(self, k):
        W = self.W = k.W
        self.k = k
        R, I, B = W.Ref, W.Int, W.Bool
        self.shape = W.fn('shape', R, R)
        self.dim = W.fn('dim', R, I, I)
        self.kind = W.fn('kind', R, I)
        self.skind = W.fn('stateKind', R, I)
        self.isst = W.fn('is_State', R, I, I, I)

    def dims(self, s):
        return self.dim(self.shape(s), self.W.i(1)), self.dim(self.shape(s), self.W.i(2))

    def inside(self, s, p):
        W = self.W
        a, b = self.dims(s)
        x, y = W.Pair.first(p), W.Pair.second(p)
        return z3.And(x >= 0, x < a, y >= 0, y < b)

    def within(self, s, i, j):
        a, b = self.dims(s)
        return z3.And(i >= 0, i < a, j >= 0, j < b)

    def has(self, v, name):
        return self.W.band(v, self.k.en(name)) != 0

    def state(self, s, i, j):
        return self.has(self.isst(s, i, j), 'STATE')

    def statep(self, s, p):
        """element p is a state of a symbol that is a state in parts"""
        return z3.And(self.skind(s) == self.k.en('SEVERAL'), self.state(s, self.W.Pair.first(p), self.W.Pair.second(p)))


def put(T):
    def contract(key, **kw):
        T[key] = Contract(key, **kw)
        return T[key]

    def pure(key, f, note=''):
        T[key] = Contract(key, pure=f, note=note)
    R = lambda k: (k.this.ref if isinstance(k.this, Obj) else k.this.x)
    pure('Symbolics::Basic::getShape() const', lambda k: Obj(M(k).shape(R(k)), 'Shape'), 'observer')

    def dim(k):
        v = M(k).dim(R(k), k.arg(0).x)
        k.s.pc.append(v >= 0)
        if k.W.finite:
            k.s.pc.append(v <= z3.If(k.arg(0).x == 1, k.W.i(1), k.W.i(2)))
        return Val(Ty('int'), {(): v})
    pure('Symbolics::Shape::getDimension(unsigned long) const', dim, 'observer')
    pure('Symbolics::Symbol::getKind() const', lambda k: Val(Ty('int'), {(): M(k).kind(R(k))}), 'observer')
    pure('Symbolics::Symbol::stateKind() const', lambda k: Val(Ty('int'), {(): M(k).skind(R(k))}), 'observer')
    pure('Symbolics::Symbol::is_State(unsigned long, unsigned long) const', lambda k: Val(Ty('int'), {(): M(k).isst(R(k), k.arg(0).x, k.arg(1).x)}), 'observer')
    pure('Symbolics::Symbol::getUserData(unsigned long) const', lambda k: Val(Ty('ref', 'void *'), {(): A(k.g('ud'), R(k), k.arg(0).x)}), 'observer of the ghost map ud')

    pure('Symbolics::Symbol const* Symbolics::Util::getAsConstPtr<Symbolics::Symbol>(boost::intrusive_ptr<Symbolics::Basic const> const&)',
         lambda k: Val(Ty('ref', 'Symbolics::Symbol const *'), {(): k.arg(0).x}), 'the keys of the maps of symbols are symbols')

    GH = {'ud': lambda W: W.fresh('ud', z3.ArraySort(W.Ref, z3.ArraySort(W.Int, W.Ref))), 'fresh': lambda W: W.fresh('fresh', z3.ArraySort(W.Ref, W.Bool))}

    # ---- adjacency
    def frame(k, *fs):
        o = k.old()
        return [('%s::%s unchanged' % f[:2], k.heap(*f) == o.heap(*f)) for f in fs]

    def adj(name, fld, val, guard=True):
        def post(k):
            o = k.old()
            p = k.arg(0)
            p = p.ref if isinstance(p, Obj) else p.x
            a = o.heap('Node', fld, 'dom')
            return [('the set of this node and no other', k.heap('Node', fld, 'dom') == z3.Store(a, R(k), z3.Store(A(a, R(k)), p, k.W.true() if val else k.W.false())))] + \
                frame(k, ('Node', 'm_childs' if fld == 'm_parents' else 'm_parents', 'dom'))

        def exc(k):
            p = k.arg(0)
            return [('only null is refused', (p.ref if isinstance(p, Obj) else p.x) == k.W.null)]

        def call(X, c, k, rty):
            return X.apply(c, k, [('Node', fld)], rty)
        contract('Symbolics::Graph::Node::%s(%s)' % (name, NP), post=post, exc=exc, call=call)
    adj('addParent', 'm_parents', True)
    adj('addChild', 'm_childs', True)
    adj('removeChild', 'm_childs', False)

    # ---- symbols of the equation that it does not solve
    def fs_call(X, c, k, rty):
        """any result: what the expressions mention (Equation::DerivativeScanner is checked elsewhere)"""
        o = Obj(R(k), 'Equation')
        lv = X.fieldlv(o, 'm_symbols', k.s)
        v = X.unknown(lv.t, 'm_symbols', k.s)
        lv.put(k.s, v)
        if 'fresh' in k.s.ghost:
            k.s.ghost['fresh'] = z3.Store(k.s.ghost['fresh'], o.ref, k.W.true())
        return [(k.s, None)]
    T['Symbolics::Graph::Equation::findSymbols()'] = Contract('Symbolics::Graph::Equation::findSymbols()', call=fs_call, abstract=True, note='assumed: m_symbols is what the expressions mention')

    class Q:
        """m_symbols, m_solveFor and m_parentssymbols of a node"""

        def __init__(self, k, n=None):
            self.k, W = k, k.W
            self.W = W
            self.n = R(k) if n is None else n
            self.e = A(k.heap('Node', 'm_eqn'), self.n)
            h = lambda c, f, o, *p: A(k.heap(c, f, *p), o)
            self.sd, self.sk, self.se = (h('Equation', 'm_symbols', self.e, *p) for p in (('dom',), ('at', 'kind'), ('at', 'elements', 'dom')))
            self.fd, self.fk, self.fe = (h('Equation', 'm_solveFor', self.e, *p) for p in (('dom',), ('at', 'kind'), ('at', 'elements', 'dom')))
            self.pd, self.pk, self.pe = (h('Node', 'm_parentssymbols', self.n, *p) for p in (('dom',), ('at', 'kind'), ('at', 'elements', 'dom')))
            self.m = M(k)

        def needs(self, s, p):
            """the equation mentions element p of s and does not solve it itself"""
            m = self.m
            return z3.And(z3.Or(A(self.se, s, p), z3.And(A(self.sk, s) == self.k.en('ALL'), m.inside(s, p))), z3.Not(A(self.fe, s, p)))

        def dep(self, s):
            W = self.W
            return z3.And(A(self.sd, s), z3.Or(z3.Not(A(self.fd, s)), z3.And(A(self.fk, s) != self.k.en('ALL'), W.some(W.Pair, lambda p: self.needs(s, p)))))

        def content(self, s):
            W = self.W
            return z3.If(A(self.fd, s), z3.And(A(self.pk, s) == self.k.en('SEVERAL'), W.all(W.Pair, lambda p: A(self.pe, s, p) == self.needs(s, p))),
                         z3.And(A(self.pk, s) == A(self.sk, s), A(self.pe, s) == A(self.se, s)))

    T['_Q'] = Q
    FS = 'Symbolics::Graph::Node::findParentsSymbols()'

    def fps_post(k):
        W = k.W
        q = Q(k)
        return [('exactly the symbols that are mentioned and not solved', W.all(W.Ref, lambda s: A(q.pd, s) == q.dep(s))),
                ('with exactly the elements that are mentioned and not solved', W.all(W.Ref, lambda s: z3.Implies(A(q.pd, s), q.content(s)))),
                ('what the equation mentions is up to date', A(k.g('fresh'), q.e)),
                ('other nodes and equations are unchanged', others(k, k.old(), R(k), q.e))]

    LV3 = (('dom',), ('at', 'kind'), ('at', 'elements', 'dom'))

    def others(k, o, n0, e0):
        W = k.W
        same = lambda c, f, x: z3.And([A(k.heap(c, f, *p), x) == A(o.heap(c, f, *p), x) for p in LV3])
        return z3.And(W.all(W.Ref, lambda n: z3.Implies(n != n0, same('Node', 'm_parentssymbols', n))), W.all(W.Ref, lambda e: z3.Implies(e != e0, z3.And(same('Equation', 'm_symbols', e), A(k.g('fresh'), e) == A(o.g('fresh'), e)))))

    def fps_loop(k, e, seen):
        W = k.W
        q, o = Q(k), Q(e)
        return [('exactly the symbols passed that are needed', W.all(W.Ref, lambda s: A(q.pd, s) == z3.And(A(seen, s), q.dep(s)))),
                ('with exactly their elements', W.all(W.Ref, lambda s: z3.Implies(A(q.pd, s), q.content(s)))),
                ('other nodes are unchanged', others(k, e, R(k), q.e)), ('the equation is unchanged', z3.And(k.heap('Equation', 'm_symbols', 'at', 'kind') == e.heap('Equation', 'm_symbols', 'at', 'kind'),
                                                     k.heap('Equation', 'm_symbols', 'at', 'elements', 'dom') == e.heap('Equation', 'm_symbols', 'at', 'elements', 'dom'),
                                                     k.heap('Equation', 'm_symbols', 'dom') == e.heap('Equation', 'm_symbols', 'dom')))]

    def em_loop(k, e, seen):
        W = k.W
        q = Q(k)
        s = k.iter('ii')
        em = k.local('em')
        return [('exactly the elements passed that are not solved', W.all(W.Pair, lambda p: A(em.d[('elements', 'dom')], p) == z3.And(A(seen, p), z3.Not(A(q.fe, s, p))))),
                ('some elements', em.d[('kind',)] == k.en('SEVERAL'))]

    def all_loop(inner):
        def f(k, e, pos):
            W = k.W
            q = Q(k)
            s = k.iter('ii')
            em, em0 = k.local('em'), e.local('em')
            a, b = q.m.dims(s)
            i = k.local('i').x
            x, y = W.Pair.first, W.Pair.second
            cov = lambda p: z3.And(q.m.inside(s, p), x(p) < i)
            if inner:
                j = pos
                cov = lambda p: z3.And(q.m.inside(s, p), x(p) == i, y(p) < j)
            r = [('elements of the rows passed', W.all(W.Pair, lambda p: A(em.d[('elements', 'dom')], p) == z3.Or(A(em0.d[('elements', 'dom')], p), z3.And(cov(p), z3.Not(A(q.fe, s, p)))))),
                 ('some elements', em.d[('kind',)] == k.en('SEVERAL'))]
            return r
        return f

    contract(FS, post=fps_post, ghosts=GH, loops=[Loop(fps_loop, tag='m_symbols'), Loop(em_loop, tag='elements'), Loop(all_loop(False), tag='int'), Loop(all_loop(True), tag='int')])
    T[FS].call = lambda X, c, k, rty: X.apply(c, k, [('Node', 'm_parentssymbols'), ('Equation', 'm_symbols'), ('g', 'fresh')], rty)

    # ---- the nodes that solve them
    class U(Q):
        """parents and what is registered at a symbol (SymbolNodeElement)"""

        def __init__(self, k, n=None):
            Q.__init__(self, k, n)
            self.par = k.heap('Node', 'm_parents', 'dom')
            self.chi = k.heap('Node', 'm_childs', 'dom')
            self.time = A(k.heap('Node', 'm_time'), self.n)
            self.ek, self.en_ = k.heap('SymbolNodeElementT', 'kind'), k.heap('SymbolNodeElementT', 'node')
            self.ed, self.ea = k.heap('SymbolNodeElementT', 'elements', 'dom'), k.heap('SymbolNodeElementT', 'elements', 'at')

        def el(self, s):
            return A(self.k.g('ud'), s, self.k.en('ID_UD_NODE'))

        def whole(self, s):
            return A(self.ek, self.el(s)) == self.k.en('ALL')

        def skip(self, s):
            m, W = self.m, self.W
            z = W.i(0)
            return z3.Or(s == self.time, m.has(m.kind(s), 'INPUT'), m.has(m.kind(s), 'CONTROLLER'), z3.And(m.skind(s) == self.k.en('ALL'), m.state(s, z, z)),
                         z3.And(self.el(s) == W.null, m.skind(s) == self.k.en('SEVERAL'), W.all([W.Int, W.Int], lambda i, j: z3.Implies(m.within(s, i, j), m.state(s, i, j)))))

        def mentioned(self, s, p):
            return z3.Or(z3.And(A(self.pk, s) == self.k.en('ALL'), self.m.inside(s, p)), z3.And(A(self.pk, s) != self.k.en('ALL'), self.m.inside(s, p), A(self.pe, s, p)))

        def wants(self, s, p):
            return z3.And(self.mentioned(s, p), z3.Not(self.m.statep(s, p)))

        def ok(self, s):
            """what solves s is among the parents"""
            W = self.W
            P = A(self.par, self.n)
            return z3.Or(self.skip(s), z3.And(self.el(s) != W.null, z3.Implies(self.whole(s), A(P, A(self.en_, self.el(s)))),
                                              z3.Implies(z3.Not(self.whole(s)), W.all(W.Pair, lambda p: z3.Implies(self.wants(s, p), z3.And(A(self.ed, self.el(s), p), A(P, A(self.ea, self.el(s), p))))))))

        def reads(self, s, p):
            """an element that is solved elsewhere and that the equation may read"""
            return z3.And(A(self.ed, self.el(s), p), z3.Or(A(self.pk, s) == self.k.en('ALL'), A(self.pe, s, p)), z3.Not(self.m.statep(s, p)))

        def why(self, s, q):
            W = self.W
            return z3.And(A(self.pd, s), self.el(s) != W.null,
                          z3.Or(z3.And(self.whole(s), A(self.en_, self.el(s)) == q), z3.And(z3.Not(self.whole(s)), W.some(W.Pair, lambda p: z3.And(self.reads(s, p), A(self.ea, self.el(s), p) == q)))))

    T['_U'] = U
    FN = 'Symbolics::Graph::Node::findParentsNodes()'

    def registered(k):
        W = k.W
        u = U(k)
        E = W.Ref
        return [('registered nodes are not null', W.all(E, lambda e: z3.And(z3.Implies(A(u.ek, e) == k.en('ALL'), A(u.en_, e) != W.null), W.all(W.Pair, lambda p: z3.Implies(A(u.ed, e, p), A(u.ea, e, p) != W.null)))))]

    def fn_common(k, o):
        """against the state o: parents of other nodes, symmetry"""
        W = k.W
        u, a = U(k), U(o)
        t = R(k)
        return [('the parents of other nodes are unchanged', W.all(W.Ref, lambda n: z3.Implies(n != t, A(u.par, n) == A(a.par, n)))),
                ('children mirror the parents', W.all([W.Ref, W.Ref], lambda n, c: A(u.chi, n, c) == z3.Or(A(a.chi, n, c), z3.And(c == t, A(u.par, t, n)))))]

    def fn_post(k):
        W = k.W
        u, o = U(k), k.old()
        return [('what solves a mentioned symbol is a parent', W.all(W.Ref, lambda s: z3.Implies(A(u.pd, s), u.ok(s)))),
                ('parents solve mentioned symbols', W.all(W.Ref, lambda q: z3.Implies(A(u.par, u.n, q), W.some(W.Ref, lambda s: u.why(s, q)))))] + fps_post(k) + fn_common(k, o)

    def fn_exc(k):
        W = k.W
        u = U(k)
        return [('only what has no equation is refused', W.some(W.Ref, lambda s: z3.And(A(u.pd, s), z3.Not(u.skip(s)),
                 z3.Or(u.el(s) == W.null, z3.And(z3.Not(u.whole(s)), W.some(W.Pair, lambda p: z3.And(u.wants(s, p), z3.Not(A(u.ed, u.el(s), p))))))))),
                ('the parents of other nodes are unchanged', W.all(W.Ref, lambda n: z3.Implies(n != u.n, A(u.par, n) == A(U(k.old()).par, n))))]

    def fn_loop(k, e, seen):
        W = k.W
        u = U(k)
        return [('what solves the symbols passed is a parent', W.all(W.Ref, lambda s: z3.Implies(A(seen, s), u.ok(s)))),
                ('parents solve symbols passed', W.all(W.Ref, lambda q: z3.Implies(A(u.par, u.n, q), W.some(W.Ref, lambda s: z3.And(A(seen, s), u.why(s, q))))))] + fn_common(k, k.old())

    def ns_loop(inner):
        def f(k, e, pos):
            W = k.W
            u = U(k)
            s = k.iter('jj')
            x, y = W.Pair.first, W.Pair.second
            i = k.local('i').x
            c = (lambda a, b: z3.And(a == i, b < pos)) if inner else (lambda a, b: a < pos)
            return [('none found', z3.Not(k.local('nostate').x)), ('states so far', W.all([W.Int, W.Int], lambda a, b: z3.Implies(z3.And(u.m.within(s, a, b), c(a, b)), u.m.state(s, a, b))))]
        return f

    def ck_loop(inner):
        def f(k, e, pos):
            W = k.W
            u = U(k)
            s = k.iter('jj')
            x, y = W.Pair.first, W.Pair.second
            i = k.local('i').x
            c = (lambda p: z3.And(x(p) == i, y(p) < pos)) if inner else (lambda p: x(p) < pos)
            return [('solved so far', W.all(W.Pair, lambda p: z3.Implies(z3.And(c(p), u.wants(s, p)), A(u.ed, u.el(s), p))))]
        return f

    def el_loop(k, e, seen):
        W = k.W
        u, a = U(k), U(e)
        s = k.iter('jj')
        P, P0 = A(u.par, u.n), A(a.par, u.n)
        return [('parents stay', W.all(W.Ref, lambda q: z3.Implies(A(P0, q), A(P, q)))),
                ('elements passed', W.all(W.Pair, lambda p: z3.Implies(z3.And(A(seen, p), u.reads(s, p)), A(P, A(u.ea, u.el(s), p))))),
                ('nothing else', W.all(W.Ref, lambda q: z3.Implies(A(P, q), z3.Or(A(P0, q), W.some(W.Pair, lambda p: z3.And(A(seen, p), u.reads(s, p), A(u.ea, u.el(s), p) == q))))))] + fn_common(k, k.old())

    contract(FN, pre=registered, post=fn_post, exc=fn_exc, ghosts=GH,
             loops=[Loop(fn_loop, tag='m_parentssymbols'), Loop(ns_loop(False), tag='int'), Loop(ns_loop(True), tag='int'), Loop(ck_loop(False), tag='int'), Loop(ck_loop(True), tag='int'),
                    Loop(el_loop, tag='elements'), Loop(el_loop, tag='elements')])
    T[FN].call = lambda X, c, k, rty: X.apply(c, k, [('Node', 'm_parentssymbols'), ('Node', 'm_parents'), ('Node', 'm_childs'), ('Equation', 'm_symbols'), ('g', 'fresh')], rty)

    # ---- the graph of a system: dependencies, then the order
    import contracts as C
    BG = 'Symbolics::Graph::MatchedSystem::buildGraph()'
    C.T['Symbolics::Util::getTime()'] = Contract('Symbolics::Util::getTime()', pure='skip', note='time measurement')

    def bg_pre(k):
        W = k.W
        d, u = C.D(k), U(k, k.W.null)
        n, at = C.nodes(k, 'MatchedSystem')
        K = k.g('K')
        return registered(k) + [
            ('no node is visited', W.all(W.Ref, lambda x: z3.And(z3.Not(A(d.visited, x)), z3.Not(A(d.active, x))))),
            ('null is no node', z3.Not(A(K, W.null))),
            ('the nodes of the system are the graph', z3.And(W.all(W.Int, lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.And(A(K, A(at, i)), A(at, i) != W.null, A(k.g('where'), A(at, i)) == i))),
                                                             W.all(W.Ref, lambda x: z3.Implies(A(K, x), z3.And(0 <= A(k.g('where'), x), A(k.g('where'), x) < n, A(at, A(k.g('where'), x)) == x))))),
            ('registered nodes are nodes of the system', W.all(W.Ref, lambda e: z3.And(z3.Implies(A(u.ek, e) == k.en('ALL'), A(K, A(u.en_, e))), W.all(W.Pair, lambda p: z3.Implies(A(u.ed, e, p), A(K, A(u.ea, e, p))))))),
            ('one node for an equation', W.all([W.Ref, W.Ref], lambda x, y: z3.Implies(z3.And(A(K, x), A(K, y), A(d.eqn, x) == A(d.eqn, y)), x == y)))]

    def deps_ok(k, n):
        W = k.W
        u = U(k, n)
        return W.all(W.Ref, lambda s: z3.Implies(A(u.pd, s), u.ok(s)))

    def bg_post(k):
        W = k.W
        n, at = C.nodes(k, 'MatchedSystem')
        K = k.g('K')
        return C.topological(k, n, at, lambda x: A(K, x)) + [
            ('what solves a mentioned symbol is a parent', W.all(W.Ref, lambda x: z3.Implies(A(K, x), deps_ok(k, x)))),
            ('what the equations mention is up to date', W.all(W.Ref, lambda x: z3.Implies(A(K, x), A(k.g('fresh'), A(k.heap('Node', 'm_eqn'), x)))))]

    def undefined(k, n):
        W = k.W
        u = U(k, n)
        return W.some(W.Ref, lambda s: z3.And(A(u.pd, s), z3.Not(u.skip(s)), z3.Or(u.el(s) == W.null, z3.And(z3.Not(u.whole(s)), W.some(W.Pair, lambda p: z3.And(u.wants(s, p), z3.Not(A(u.ed, u.el(s), p))))))))

    def bg_exc(k):
        W = k.W
        d = C.D(k)
        return [('only cyclic or missing definitions are refused', z3.Or(z3.Not(W.all([W.Ref, W.Ref], lambda n, q: z3.Implies(z3.And(A(d.K, n), d.par(n, q)), A(d.rank, q) < A(d.rank, n)))),
                                                                         W.some(W.Ref, lambda n: z3.And(A(k.g('K'), n), undefined(k, n)))))]

    def bg_loop(k, e, i):
        W = k.W
        d = C.D(k)
        n, at = C.nodes(k, 'MatchedSystem')
        K = k.g('K')
        passed = lambda x: z3.And(A(K, x), A(k.g('where'), x) < i)
        return [('what solves the symbols of the nodes passed is a parent', W.all(W.Ref, lambda x: z3.Implies(passed(x), deps_ok(k, x)))),
                ('their parents are nodes of the system', W.all([W.Ref, W.Ref], lambda x, q: z3.Implies(z3.And(passed(x), d.par(x, q)), A(K, q)))),
                ('up to date', W.all(W.Ref, lambda x: z3.Implies(passed(x), A(k.g('fresh'), A(d.eqn, x)))))]

    contract(BG, pre=bg_pre, post=bg_post, exc=bg_exc, ghosts=dict(C.GH2, **GH), loops=[Loop(bg_loop, tag='m_nodes')])

    def se_call(X, c, k, rty):
        W, s = k.W, k.s
        d = C.D(k)
        s.ghost['acyclic'] = k.s0.ghost['acyclic'] = W.all([W.Ref, W.Ref], lambda n, q: z3.Implies(z3.And(A(d.K, n), d.par(n, q)), A(d.rank, q) < A(d.rank, n)))
        return X.apply(c, k, [('Node', 'visited'), ('Node', 'active'), ('MatchedSystem', 'm_nodes')], rty)
    C.T[C.SE].call = se_call
