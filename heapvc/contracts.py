"""Contracts of the scheduling part of symbolics/graph."""
import z3
from core import *
from execute import Contract, Loop, Call

N = 'Symbolics::Graph::Node'
NP = 'boost::intrusive_ptr<Symbolics::Graph::Node>'
T = {}


def contract(key, **kw):
    T[key] = Contract(key, **kw)
    return T[key]


def A(a, *i):
    for k in i:
        a = z3.Select(a, k)
    return a


# ---------------------------------------------------------------- state of the depth first search
class D:
    """visited, active, parents, categories and the ghost order of the calls of process_Node"""

    def __init__(self, k):
        W = k.W
        self.W = W
        self.visited = k.heap('Node', 'visited')
        self.active = k.heap('Node', 'active')
        self.parents = k.heap('Node', 'm_parents', 'dom')
        self.eqn = k.heap('Node', 'm_eqn')
        self.cat = k.heap('Equation', 'm_category')
        self.fin = k.g('fin')
        self.L = k.g('L')
        self.K = k.g('K')
        self.rank = k.g('rank')
        self.acyclic = k.g('acyclic')

    def par(self, n, q):
        return A(self.parents, n, q)

    def category(self, n):
        return A(self.cat, A(self.eqn, n))


def inv(d):
    W = d.W
    R = W.Ref
    return [
        ('called exactly for the nodes that are visited and not active', W.all(R, lambda n: z3.And(A(d.visited, n), z3.Not(A(d.active, n))) == (A(d.fin, n) >= 0))),
        ('active nodes are visited', W.all(R, lambda n: z3.Implies(A(d.active, n), A(d.visited, n)))),
        ('bounds of the order', z3.And(d.L >= 0, W.all(R, lambda n: z3.And(A(d.fin, n) >= -1, A(d.fin, n) < d.L)))),
        ('every node after its parents', W.all([R, R], lambda n, q: z3.Implies(z3.And(A(d.fin, n) >= 0, d.par(n, q)), z3.And(A(d.fin, q) >= 0, A(d.fin, q) < A(d.fin, n))))),
        ('every node once', W.all([R, R], lambda n, q: z3.Implies(z3.And(A(d.fin, n) >= 0, A(d.fin, n) == A(d.fin, q)), n == q))),
    ]


def closed(d):
    W = d.W
    R = W.Ref
    return [('null is no node', z3.Not(A(d.K, W.null))),
            ('the graph is closed under parents', W.all([R, R], lambda n, q: z3.Implies(z3.And(A(d.K, n), d.par(n, q)), A(d.K, q)))),
            ('rank of acyclic graphs', z3.Implies(d.acyclic, W.all([R, R], lambda n, q: z3.Implies(z3.And(A(d.K, n), d.par(n, q)), A(d.rank, q) < A(d.rank, n)))))]


GH = {'fin': lambda W: W.fresh('fin', z3.ArraySort(W.Ref, W.Int)), 'L': lambda W: W.fresh('L', W.Int), 'K': lambda W: W.fresh('K', z3.ArraySort(W.Ref, W.Bool)),
      'rank': lambda W: W.fresh('rank', z3.ArraySort(W.Ref, W.Int)), 'acyclic': lambda W: W.fresh('acyclic', W.Bool),
      'pos': lambda W: W.fresh('pos', z3.ArraySort(W.Ref, W.Int))}


def extends(W, a, b):
    """search state b continues a"""
    R = W.Ref
    return [('visited nodes stay visited', W.all(R, lambda n: z3.Implies(A(a.visited, n), A(b.visited, n)))),
            ('the order is extended at its end', z3.And(b.L >= a.L, W.all(R, lambda n: z3.Or(A(b.fin, n) == A(a.fin, n), z3.And(A(a.fin, n) == -1, A(b.fin, n) >= a.L))))),
            ('only nodes of the graph are visited', W.all(R, lambda n: z3.Implies(z3.And(A(b.visited, n), z3.Not(A(a.visited, n))), A(a.K, n))))]


def node_of(k, i=0):
    a = k.arg(i)
    return a.ref if isinstance(a, Obj) else a.x


# ---- visitors: the coupling of what they collected with the order of the calls
def coupled_sorter(k, o, d):
    W = k.W
    v = k.X.rv(k.s, k.X.fieldlv(o, 'm_nodes', k.s))
    n, at = v.d[('len',)], v.d[('at',)]
    return [('as many nodes as calls', n == d.L),
            ('the nodes in the order of the calls', W.all(W.Ref, lambda x: z3.Implies(A(d.fin, x) >= 0, A(at, A(d.fin, x)) == x))),
            ('nothing else', W.all(W.Int, lambda i: z3.Implies(z3.And(0 <= i, i < n), A(d.fin, A(at, i)) == i)))]


def coupled_collector(k, o, d):
    W = k.W
    R = W.Ref
    v = k.X.rv(k.s, k.X.fieldlv(o, 'm_nodes', k.s))
    ex = k.X.rv(k.s, k.X.fieldlv(o, 'm_exclude', k.s)).x
    n, at = v.d[('len',)], v.d[('at',)]
    pos = k.g('pos')
    return [('length', n >= 0),
            ('exactly the nodes that are not excluded', W.all(R, lambda x: (A(pos, x) >= 0) == z3.And(A(d.fin, x) >= 0, W.band(d.category(x), ex) == 0))),
            ('place', W.all(R, lambda x: z3.Implies(A(pos, x) >= 0, z3.And(A(pos, x) < n, A(at, A(pos, x)) == x)))),
            ('nothing else', W.all(W.Int, lambda i: z3.Implies(z3.And(0 <= i, i < n), A(pos, A(at, i)) == i))),
            ('in the order of the calls', W.all([R, R], lambda x, y: z3.Implies(z3.And(A(pos, x) >= 0, A(pos, y) >= 0, A(d.fin, x) < A(d.fin, y)), A(pos, x) < A(pos, y))))]


COUPLED = {'NodeSorter': coupled_sorter, 'NodeCollector': coupled_collector}


def coupling(k, o, d):
    return COUPLED[o.cls](k, o, d) if o.cls in COUPLED else []


def called(k0, k, p):
    """effect of one call of process_Node on the ghost order"""
    return [z3.And(k.g('fin') == z3.Store(k0.g('fin'), p, k0.g('L')), k.g('L') == k0.g('L') + 1)]


# Visitor::process_Node, abstract: what node_iterate_depth_first may rely on
def visit_call(X, c, k, rty):
    p = node_of(k)
    X.need(k.s, 'process_Node is called once for a node', A(k.g('fin'), p) == -1)
    s = k.s
    s.ghost['fin'] = z3.Store(s.ghost['fin'], p, s.ghost['L'])
    s.ghost['L'] = s.ghost['L'] + 1
    return [(s, None)]


contract('Symbolics::Graph::Node::Visitor::process_Node(%s)' % NP, abstract=True, call=visit_call, note='abstract; every override is verified against it')


def override(key, cls):
    """an override keeps the coupling when the ghost order takes the node"""
    def pre(k):
        d = D(k)
        return inv_order(d) + coupling(k, k.this, d) + [('new node', A(d.fin, node_of(k)) == -1)]

    def post(k):
        s = k.s
        p = node_of(k)
        o = k.old()
        s.ghost['fin'] = z3.Store(o.g('fin'), p, o.g('L'))
        s.ghost['L'] = o.g('L') + 1
        if 'pos' in s.ghost and cls == 'NodeCollector':
            d0 = D(o)
            ex = k.X.rv(o.s, k.X.fieldlv(k.this, 'm_exclude', o.s)).x
            n0 = k.X.rv(o.s, k.X.fieldlv(k.this, 'm_nodes', o.s)).d[('len',)]
            s.ghost['pos'] = z3.If(k.W.band(d0.category(p), ex) == 0, z3.Store(o.g('pos'), p, n0), o.g('pos'))
        d = D(k)
        a = D(o)
        return coupling(k, k.this, d) + frame(k, ['visited', 'active'], 'Node') + [('parents unchanged', d.parents == a.parents), ('category unchanged', d.cat == a.cat)]
    contract(key, pre=pre, post=post, ghosts=GH)
    T[key].call = None


def inv_order(d):
    return [x for x in inv(d) if x[0] in ('bounds of the order', 'every node once')]


def frame(k, fields, cls):
    o = k.old()
    return [('%s unchanged' % f, k.heap(cls, f) == o.heap(cls, f)) for f in fields]


SORT = 'Symbolics::Graph::MatchedSystem::NodeSorter::process_Node(%s)' % NP
COLL = 'Symbolics::Graph::Graph::NodeCollector::process_Node(%s)' % NP
override(SORT, 'NodeSorter')
override(COLL, 'NodeCollector')

# ---- depth first search
NI = 'Symbolics::Graph::Node::node_iterate_depth_first(%s, Symbolics::Graph::Node::Visitor&)' % NP


def ni_pre(k):
    d = D(k)
    p = node_of(k)
    return inv(d) + closed(d) + [('a node of the graph', A(d.K, p)), ('not null', p != k.W.null),
                                 ('active nodes depend on it', z3.Implies(d.acyclic, k.W.all(k.W.Ref, lambda a: z3.Implies(A(d.active, a), A(d.rank, a) > A(d.rank, p)))))]


def ni_post(k):
    a, b = D(k.old()), D(k)
    p = node_of(k)
    return inv(b) + extends(k.W, a, b) + [('the node is in the order', A(b.fin, p) >= 0), ('the same nodes are active', b.active == a.active),
                                          ('the graph is unchanged', z3.And(b.parents == a.parents, b.cat == a.cat, b.eqn == a.eqn))]


def ni_exc(k):
    return [('only a cyclic definition is refused', z3.Not(D(k.old()).acyclic))]


def ni_loop(k, e, seen):
    a, b = D(e), D(k)
    W = k.W
    p = node_of(k)
    return inv(b) + extends(W, a, b) + [('the same nodes are active', b.active == a.active),
                                        ('parents passed are in the order', W.all(W.Ref, lambda q: z3.Implies(A(seen, q), A(b.fin, q) >= 0))),
                                        ('the graph is unchanged', z3.And(b.parents == a.parents, b.cat == a.cat, b.eqn == a.eqn))]


def ni_call(X, c, k, rty):
    """at a call: also what the visitor collected, by its coupling (behavioural subtyping of process_Node)"""
    o = k.args[1]
    s = k.s
    conc = isinstance(o, Obj) and o.cls in COUPLED
    if conc:
        for nm, g in coupling(k, o, D(k)):
            X.need(s, 'visitor agrees with the order: ' + nm, g)
        if 'pos' in s.ghost:
            s.ghost['pos'] = X.W.fresh('pos', s.ghost['pos'].sort())
        lv = X.fieldlv(o, 'm_nodes', s)
        t = lv.t
        v = X.unknown(t, 'm_nodes', s)
        v.tag = 'm_nodes'
    s.pc = list(s.pc)
    r = X.apply(c, k, [('Node', 'visited'), ('Node', 'active'), ('g', 'fin'), ('g', 'L')])
    if conc:
        for q, _ in r:
            lv.put(q, v)
            q.pc += [g for nm, g in coupling(k.now(q), o, D(k.now(q)))]
    return r


contract(NI, pre=ni_pre, post=ni_post, exc=ni_exc, ghosts=GH, loops=[Loop(ni_loop)], call=ni_call)

# ---- sorting all equations
SE = 'Symbolics::Graph::MatchedSystem::sortEquations()'


def fresh_search(k, o):
    """ghost order of a new visitor"""
    pass


def new_visitor(X, q, o):
    q.ghost['fin'] = z3.K(X.W.Ref, X.W.i(-1))
    q.ghost['L'] = X.W.i(0)
    q.ghost['pos'] = z3.K(X.W.Ref, X.W.i(-1))


def nodes(k, cls):
    v = k.X.rv(k.s, k.X.fieldlv(Obj(k.this.ref, cls), 'm_nodes', k.s))
    return v.d[('len',)], v.d[('at',)]


def handler_pre(cls):
    def pre(k):
        W = k.W
        d = D(k)
        n, at = nodes(k, cls)
        return closed(d) + [
            ('no node is visited', W.all(W.Ref, lambda x: z3.And(z3.Not(A(d.visited, x)), z3.Not(A(d.active, x))))),
            ('the nodes of the system are the graph', z3.And(W.all(W.Int, lambda i: z3.Implies(z3.And(0 <= i, i < n), z3.And(A(d.K, A(at, i)), A(at, i) != W.null, A(k.g('where'), A(at, i)) == i))),
                                                             W.all(W.Ref, lambda x: z3.Implies(A(d.K, x), z3.And(0 <= A(k.g('where'), x), A(k.g('where'), x) < n, A(at, A(k.g('where'), x)) == x)))))]
    return pre


GH2 = dict(GH, where=lambda W: W.fresh('where', z3.ArraySort(W.Ref, W.Int)))


def topological(k, n, at, which):
    """n nodes at[...]: exactly those of 'which', each once, after its parents"""
    W = k.W
    d = D(k)
    return [('every node is contained', W.all(W.Ref, lambda x: z3.Implies(which(x), W.some(W.Int, lambda i: z3.And(0 <= i, i < n, A(at, i) == x))))),
            ('every node once', W.all([W.Int, W.Int], lambda i, j: z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, A(at, i) == A(at, j)), i == j))),
            ('only these nodes', W.all(W.Int, lambda i: z3.Implies(z3.And(0 <= i, i < n), which(A(at, i))))),
            ('every node after its parents', W.all([W.Int, W.Int], lambda i, j: z3.Implies(z3.And(0 <= i, i < n, 0 <= j, j < n, d.par(A(at, j), A(at, i))), i < j)))]


def se_post(k):
    W = k.W
    d = D(k)
    n, at = nodes(k, 'MatchedSystem')
    return topological(k, n, at, lambda x: A(d.K, x)) + [
        ('no node is visited', W.all(W.Ref, lambda x: z3.And(z3.Not(A(d.visited, x)), z3.Not(A(d.active, x)))))]


def search_loop(cls, selected=None):
    def f(k, e, i):
        a, b = D(e), D(k)
        W = k.W
        n, at = nodes(e, cls)
        vis = [o for kk, o in k.s.env.items() if isinstance(o, Obj) and o.cls in COUPLED]
        o0 = k.old()
        z = D(o0)
        sel = (lambda x: selected(k, b, x)) if selected else (lambda x: W.true())
        r = inv(b) + [('no node is active', W.all(W.Ref, lambda x: z3.Not(A(b.active, x)))),
                      ('only nodes of the graph are visited', W.all(W.Ref, lambda x: z3.Implies(A(b.visited, x), A(b.K, x)))),
                      ('nodes passed are in the order', W.all(W.Int, lambda j: z3.Implies(z3.And(0 <= j, j < i, sel(A(at, j))), A(b.fin, A(at, j)) >= 0))),
                      ('the graph is unchanged', z3.And(b.parents == a.parents, b.cat == a.cat, b.eqn == a.eqn))]
        for o in vis:
            r += coupling(k, o, b)
        return r
    return f


def reset_loop(cls):
    def f(k, e, i):
        W = k.W
        a, b = D(e), D(k)
        n, at = nodes(e, cls)
        return [('nodes passed are reset', W.all(W.Int, lambda j: z3.Implies(z3.And(0 <= j, j < i), z3.Not(A(b.visited, A(at, j)))))),
                ('nothing else is set', W.all(W.Ref, lambda x: z3.Implies(A(b.visited, x), A(a.visited, x)))),
                ('active', b.active == a.active)]
    return f


def acyclic_exc(k):
    return [('only a cyclic definition is refused', z3.Not(k.old().g('acyclic')))]


contract(SE, pre=handler_pre('MatchedSystem'), post=se_post, exc=acyclic_exc, ghosts=GH2,
         loops=[Loop(search_loop('MatchedSystem'), tag='m_nodes'), Loop(reset_loop('MatchedSystem'), tag='m_nodes')])
T[SE].newobj = {'NodeSorter': new_visitor}

# ---- the assignments of one kind
GA = 'Symbolics::Graph::Graph::getAssignments(unsigned int, unsigned int)'


def ga_selected(k, d, x):
    inc, ex = k.arg(0).x, k.arg(1).x
    c = d.category(x)
    return z3.And(k.W.band(c, inc) != 0, k.W.band(c, ex) == 0)


def ga_post(k):
    W = k.W
    d = D(k)
    ex = k.arg(1).x
    v = k.s.notes.get('assignments')
    n0, at0 = nodes(k.old(), 'Graph')
    if v is None:
        return [('the nodes are handed to Assignments', W.false())]
    n, at = v.d[('len',)], v.d[('at',)]
    inside = lambda x: W.some(W.Int, lambda i: z3.And(0 <= i, i < n, A(at, i) == x))
    t = topological(k, n, at, lambda x: z3.And(A(d.K, x), W.band(d.category(x), ex) == 0))
    return [x for x in t if x[0] != 'every node is contained'] + [
        ('every requested node is contained', W.all(W.Int, lambda j: z3.Implies(z3.And(0 <= j, j < n0, ga_selected(k, d, A(at0, j))), inside(A(at0, j))))),
        ('with a node all its parents that are not excluded', W.all([W.Int, W.Ref], lambda i, q: z3.Implies(z3.And(0 <= i, i < n, d.par(A(at, i), q), W.band(d.category(q), ex) == 0), inside(q)))),
        ('no node is visited', W.all(W.Ref, lambda x: z3.And(z3.Not(A(d.visited, x)), z3.Not(A(d.active, x)))))]


AS = 'Symbolics::Graph::Assignments::Assignments(std::vector<%s, std::allocator<%s > > const&)' % (NP, NP)


def as_call(X, c, k, rty):
    k.s.notes['assignments'] = k.arg(0)
    return [(k.s, None)]


contract(GA, pre=handler_pre('Graph'), post=ga_post, exc=acyclic_exc, ghosts=GH2,
         loops=[Loop(search_loop('Graph', ga_selected), tag='m_nodes'), Loop(reset_loop('Graph'), tag='m_nodes')])
T[GA].newobj = {'NodeCollector': new_visitor}
T[AS] = Contract(AS, call=as_call, abstract=True)

import deps
deps.put(T)
import assign
assign.put(T)
import scan
scan.put(T)
