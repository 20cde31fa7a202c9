"""symbolic execution of one function against its contract"""
import z3
from core import *


class Call:
    """what a contract sees: the world, states before and now, this and the arguments"""

    def __init__(self, X, st0, st, this, args, ret=None):
        self.X, self.W, self.s0, self.s, self.this, self.args, self.ret = X, X.W, st0, st, this, args, ret

    def old(self):
        return Call(self.X, self.s0, self.s0, self.this, self.args)

    def now(self, st):
        return Call(self.X, self.s0, st, self.this, self.args, self.ret)

    def heap(self, cls, f, *path, st=None):
        return self.X.heap(st or self.s, cls, f, path)

    def g(self, name):
        return self.s.ghost[name]

    def local(self, name):
        """value of a local variable"""
        for kk, v in reversed(list(self.s.env.items())):
            if not isinstance(kk, tuple) and isinstance(v, LV) and v.tag == name:
                return self.X.rv(self.s, v)
        raise Undecided('no local ' + name)

    def outer(self, up=1):
        """position of an enclosing loop"""
        if len(self.X.stack) < up or self.X.stack[-up] is None:
            raise Undecided('no enclosing loop')
        return self.X.rv(self.s, self.s.env[self.X.stack[-up]]).x

    def newobj(self, cls):
        """the object of the class that the function has made"""
        os = {id(v): v for kk, v in self.s.env.items() if isinstance(v, Obj) and v.exact and v.cls in cls}
        if len(os) != 1:
            raise Undecided('no single new object')
        return list(os.values())[0]

    def iter(self, name):
        """what an iterator refers to"""
        it = self.local(name)
        if not isinstance(it, Iter) or it.cur is None:
            raise Undecided('no position of ' + name)
        return it.cur

    def en(self, name):
        return self.W.i(self.X.P.enums[name])

    def f(self, o, cls, name):
        """field of an object as a value"""
        return self.X.rv(self.s, self.X.fieldlv(Obj(o, cls), name, self.s))

    def arg(self, i):
        a = self.args[i]
        return self.X.rv(self.s0, a)


class Loop:
    def __init__(self, inv, ghost=None, tag=None, gs=()):
        self.inv, self.ghost, self.tag, self.gs = inv, ghost, tag, gs


class Contract:
    def __init__(self, key, prop='G01', pre=None, post=None, exc=None, mod=(), loops=None, call=None, ghosts=None, abstract=False, pure=None, note='', setup=None):
        self.key, self.prop, self.pre, self.post, self.exc, self.mod, self.loops = key, prop, pre, post, exc, mod, loops or []
        self.call, self.ghosts, self.abstract, self.pure, self.note, self.setup = call, ghosts or {}, abstract, pure, note, setup


class Ex:
    def __init__(self, P, W, contracts, secs=20, limit=400, unroll=0):
        self.P, self.W, self.C, self.secs, self.limit = P, W, contracts, secs, limit
        self.obl = []
        self.unroll, self.specs, self.cut = unroll, {}, 0
        self.probe = None
        self.used, self.inlined, self.assumed = set(), set(), set()
        self.depth = 0
        self.stack = []
        self.hooknew, self.constant = None, ()
        self.tus = {}
        self.base = {}
        self.axioms = []

    # ---------------------------------------------------------------- heap
    def owner(self, cls, f):
        seen = [cls.split('::')[-1]]
        while seen:
            c = seen.pop(0)
            i = self.P.classes.get(c)
            if i is None:
                continue
            for n, t in i['fields']:
                if n == f:
                    return c, t
            seen += [b.split('::')[-1] for b in i['bases']]
        raise Undecided('field %s::%s' % (cls, f))

    def heap(self, st, cls, f, path=()):
        c, t = self.owner(cls, f)
        k = (c, f) + tuple(path)
        if k not in st.heap:
            if k not in self.base:
                s = ty(self.P, t).leaves(self.W)[tuple(path)]
                self.base[k] = self.W.fresh('.'.join(map(str, k)), z3.ArraySort(self.W.Ref, s))
                self.typefact(self.base[k], path)
            st.heap[k] = self.base[k]
        return st.heap[k]

    def typefact(self, a, path):
        """lengths are not negative"""
        if not path or path[-1] != 'len':
            return
        ds, s = [], a.sort()
        while isinstance(s, z3.ArraySortRef):
            ds.append(s.domain())
            s = s.range()

        def f(*x):
            e = a
            for i in x:
                e = z3.Select(e, i)
            return z3.And(e >= 0, e <= self.W.finite) if self.W.finite else e >= 0
        self.axioms.append(self.W.all(ds, f))

    def fieldlv(self, o, f, st):
        c, t = self.owner(o.cls, f)
        al = st.alias.get((o.ref.get_id(), f))
        if al is not None:
            return al
        T = ty(self.P, t)
        if T.k == 'opaque':
            raise Undecided('field of type ' + t)

        def get(s):
            return Val(T, {p: z3.Select(self.heap(s, c, f, p), o.ref) for p in T.leaves(self.W)}, f)

        def put(s, v):
            for p, e in v.d.items():
                s.heap[(c, f) + p] = z3.Store(self.heap(s, c, f, p), o.ref, e)
        return LV(get, put, T, f)

    def rv(self, st, v):
        return v.get(st) if isinstance(v, LV) else v

    def unknown(self, t, name, st=None):
        """a fresh value, with what its type guarantees"""
        d, inv = {}, []
        for p, s in t.leaves(self.W).items():
            d[p] = self.W.fresh(name + ''.join('.' + str(x) for x in p), s)
            if p and p[-1] == 'len' and s == self.W.Int:
                inv.append(d[p] >= 0)
                if self.W.finite:
                    inv.append(d[p] <= self.W.finite)
        if st is not None:
            st.pc += inv
        return Val(t, d)

    def default(self, t):
        W = self.W
        d = {}
        for p, s in t.leaves(W).items():
            d[p] = self.zero(s)
        return Val(t, d)

    def zero(self, s):
        W = self.W
        if s == W.Bool:
            return W.false()
        if s == W.Int:
            return W.i(0)
        if s == W.Real:
            return z3.RealVal(0, W.ctx)
        if s == W.Ref:
            return W.null
        if s == W.Pair:
            return W.Pair.mk(W.i(0), W.i(0))
        return z3.K(s.domain(), self.zero(s.range()))

    # ---------------------------------------------------------------- expressions: list of (state, LV | Val | Obj | Iter)
    def ev(self, n, st):
        m = getattr(self, 'e_' + n.k, None)
        if m is None:
            raise Undecided('expression ' + n.k)
        return m(n, st)

    def evv(self, n, st):
        return [(s, self.rv(s, v)) for s, v in self.ev(n, st)]

    def seq(self, ns, st):
        out = [(st, [])]
        for n in ns:
            out = [(s2, vs + [v]) for s, vs in out for s2, v in self.ev(n, s)]
        return out

    def one(self, n, st):
        return self.ev(n.inner[0], st)

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_CXXFunctionalCastExpr = e_ConstantExpr = one
    e_CXXDefaultArgExpr = lambda self, n, st: [(st, Val(Ty('bool'), {(): self.W.true()}))]

    def boolv(self, b):
        return Val(Ty('bool'), {(): b})

    def intv(self, b):
        return Val(Ty('int'), {(): b})

    def realv(self, b):
        return Val(Ty('real'), {(): b})

    def plain(self, cls):
        """class whose objects are values: no methods that are overridden, no reference members"""
        return cls in self.P.classes and not self.owns(cls) and getattr(self.P, 'valued', False)

    def load(self, s, v):
        """value of an object of such a class"""
        if not isinstance(v, Obj) or not self.plain(v.cls):
            return v
        t = ty(self.P, v.cls)
        d = {}
        for f, ft in t.fields:
            for p, e in self.rv(s, self.fieldlv(v, f, s)).d.items():
                d[(f,) + p] = e
        return Val(t, d)

    def refv(self, r, t='ref'):
        return Val(Ty('ref', t), {(): r})

    def truth(self, v):
        if isinstance(v, Obj):
            return v.ref != self.W.null
        x = v.x
        if x.sort() == self.W.Bool:
            return x
        if x.sort() == self.W.Int:
            return x != 0
        if x.sort() == self.W.Real:       # an expression stands for its value: whether there is one is not known
            return self.W.fresh('null', self.W.Bool)
        return x != self.W.null

    def e_ImplicitCastExpr(self, n, st):
        ck = n.ck
        if ck == 'NullToPointer':
            return [(st, self.refv(self.W.null))]
        r = self.ev(n.inner[0], st)
        if ck in ('LValueToRValue',):
            return [(s, self.rv(s, v)) for s, v in r]
        if ck == 'IntegralToFloating':
            out = []
            for s, v in r:
                x = self.rv(s, v).x
                out.append((s, self.realv(z3.ToReal(x) if x.sort() == self.W.Int else self.W.fresh('number', self.W.Real)) if getattr(self.P, 'valued', False) else v))
            return out
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return [(s, self.boolv(self.truth(self.rv(s, v)))) for s, v in r]
        if ck == 'IntegralCast':
            out = []
            for s, v in r:
                v = self.rv(s, v)
                if v.x.sort() == self.W.Bool:
                    v = self.intv(z3.If(v.x, self.W.i(1), self.W.i(0)))
                out.append((s, v))
            return out
        return r

    e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_CXXDynamicCastExpr(self, n, st):
        out = []
        for s, v in self.evv(n.inner[0], st):
            x = v.ref if isinstance(v, Obj) else v.x
            r = self.W.fresh('cast', self.W.Ref)
            s.pc.append(z3.Or(r == x, r == self.W.null))
            out.append((s, self.refv(r, n.ty)))
        return out

    def e_CXXBoolLiteralExpr(self, n, st):
        return [(st, self.boolv(self.W.true() if n.val in (True, 'true') else self.W.false()))]

    def e_IntegerLiteral(self, n, st):
        return [(st, self.intv(self.W.i(int(n.val))))]

    def e_StringLiteral(self, n, st):
        return [(st, self.refv(self.W.fresh('str', self.W.Ref)))]

    def e_CXXThisExpr(self, n, st):
        return [(st, st.env['this'])]

    def e_GNUNullExpr(self, n, st):
        return [(st, self.refv(self.W.null))]

    e_CXXNullPtrLiteralExpr = e_GNUNullExpr

    def e_DeclRefExpr(self, n, st):
        i, name, kind = n.ref
        if i in st.env:
            return [(st, st.env[i])]
        if kind == 'EnumConstantDecl' and name in self.P.enums:
            return [(st, self.intv(self.W.i(self.P.enums[name])))]
        raise Undecided('name ' + str(name))

    def cls_of(self, t):
        t = ty(self.P, t)
        nm = t.name if t.k in ('ref', 'struct', 'opaque') else ''
        nm = nm.replace('const ', '').strip().rstrip('*&').strip()
        if '<' in nm and nm.endswith('>'):
            nm = nm.split('<', 1)[1][:-1]
        nm = nm.split('::')[-1]
        return nm if nm in self.P.classes else getattr(self.P, 'typedefs', {}).get(nm, nm).split('::')[-1]

    def e_MemberExpr(self, n, st):
        out = []
        for s, b in self.ev(n.inner[0], st):
            out.append((s, self.member(n, s, b)))
        return out

    def member(self, n, s, b):
        f = n.name
        if isinstance(b, LV) and b.t.k == 'struct':
            return LV(lambda q: field(b.get(q), f), lambda q, v: b.put(q, put_field(b.get(q), f, v)), [t for nn, t in b.t.fields if nn == f][0], f)
        if isinstance(b, tuple):      # what a map iterator points at
            k, v = b
            return k if f == 'first' else v
        if isinstance(b, Obj):
            return self.fieldlv(b, f, s)
        b = self.rv(s, b)
        if isinstance(b, Obj):
            return self.fieldlv(b, f, s)
        if isinstance(b, Val) and b.t.k == 'struct':
            return field(b, f)
        if isinstance(b, Val) and b.t.k == 'ref':
            return self.fieldlv(Obj(b.x, self.cls_of(n.inner[0].ty)), f, s)
        raise Undecided('member ' + f)

    def e_UnaryOperator(self, n, st):
        out = []
        for s, v in self.ev(n.inner[0], st):
            if n.op == '!':
                out.append((s, self.boolv(z3.Not(self.truth(self.rv(s, v))))))
            elif n.op in ('++', '--'):
                o = self.rv(s, v)
                w = self.intv(o.x + (1 if n.op == '++' else -1))
                v.put(s, w)
                out.append((s, o if (n.x or {}).get('isPostfix') else v))
            elif n.op == '*' and isinstance(v, LV) and v.t is not None and v.t.k == 'struct':
                out.append((s, v))
            elif n.op == '*':
                r = self.rv(s, v)
                out.append((s, r if isinstance(r, Obj) else Obj(r.x, self.cls_of(n.inner[0].ty))))
            elif n.op == '&':
                out.append((s, v))
            elif n.op == '-':
                x = -self.rv(s, v).x
                out.append((s, self.intv(x) if x.sort() == self.W.Int else self.realv(x)))
            else:
                raise Undecided('unary ' + n.op)
        return out

    def e_BinaryOperator(self, n, st):
        W = self.W
        op = n.op
        if op == '=':
            out = []
            for s, (a, b) in self.seq(n.inner, st):
                self.assign(s, a, self.rv(s, b))
                out.append((s, a))
            return out
        if op in ('&&', '||'):
            out = []
            for s, a in self.evv(n.inner[0], st):
                ta = self.truth(a)
                # the right operand is evaluated only when it is needed
                s1, s2 = s.copy(), s.copy()
                s1.pc.append(ta if op == '&&' else z3.Not(ta))
                s2.pc.append(z3.Not(ta) if op == '&&' else ta)
                rs = self.evv(n.inner[1], s1)
                if len(rs) == 1 and len(rs[0][0].pc) == len(s1.pc) and rs[0][0].heap == s.heap:
                    tb = self.truth(rs[0][1])
                    out.append((s, self.boolv(z3.And(ta, tb) if op == '&&' else z3.Or(ta, tb))))
                else:
                    out += [(q, self.boolv(self.truth(v))) for q, v in rs]
                    out.append((s2, self.boolv(W.true() if op == '||' else W.false())))
            return out
        out = []
        for s, (a, b) in self.seq(n.inner, st):
            a0 = a
            a, b = self.rv(s, a), self.rv(s, b)
            if op == ',':
                out.append((s, b))
                continue
            if isinstance(a, Iter):
                out.append((s, self.itercmp(op, a, b)))
                continue
            x, y = a.x, b.x
            if op in ('==', '!=') and W.Real in (x.sort(), y.sort()) and W.Ref in (x.sort(), y.sort()):
                r = self.boolv(W.fresh('null', W.Bool))
            elif op in ('==', '!='):
                if x.sort() == W.Bool and y.sort() == W.Int:
                    y = y != 0
                if y.sort() == W.Bool and x.sort() == W.Int:
                    x = x != 0
                r = self.boolv(x == y if op == '==' else x != y)
            elif op in ('<', '<=', '>', '>='):
                if self.probe is not None:
                    for m in n.inner:
                        while m.k in ('ImplicitCastExpr', 'ParenExpr'):
                            m = m.inner[0]
                        if m.k == 'DeclRefExpr' and isinstance(s.env.get(m.ref[0]), LV):
                            self.probe.append(('cmp', m.ref[0]))
                r = self.boolv({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op])
            elif op == '&' or op == '|' or op == '^':
                r = self.intv(self.bits(op, x, y))
            elif op in ('+', '-', '*', '/') and x.sort() == W.Real:
                y = z3.ToReal(y) if y.sort() == W.Int else y
                r = self.realv({'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y}[op]())
            elif op == '/' and x.sort() == W.Int:
                r = self.intv(x / y)
            elif op in ('+', '-', '*', '/') and x.sort() == W.Ref:
                r = Val(a.t, {(): W.fresh('number', W.Ref)})
            elif op in ('+', '-', '*'):
                r = self.intv({'+': x + y, '-': x - y, '*': x * y}[op])
            else:
                raise Undecided('operator ' + op)
            out.append((s, r))
        return out

    def bits(self, op, x, y):
        a, b = z3.simplify(x), z3.simplify(y)
        if z3.is_int_value(a) and z3.is_int_value(b):
            a, b = a.as_long(), b.as_long()
            return self.W.i(a & b if op == '&' else a | b if op == '|' else a ^ b)
        if op == '&':
            return self.W.band(x, y)
        f = self.W.fn({'|': 'bor', '^': 'bxor'}[op], self.W.Int, self.W.Int, self.W.Int)
        return f(x, y)

    def assign(self, s, a, v):
        if not isinstance(a, LV):
            raise Undecided('assignment to something else')
        if isinstance(v, Iter):
            a.put(s, v)
            return
        v = self.load(s, v)
        if a.t is not None and a.t.k == 'bool' and v.x.sort() == self.W.Int:
            v = self.boolv(v.x != 0)
        if a.t is not None and a.t.k == 'int' and v.x.sort() == self.W.Bool:
            v = self.intv(z3.If(v.x, self.W.i(1), self.W.i(0)))
        if isinstance(v, Obj):
            v = self.refv(v.ref)
        a.put(s, v)

    def e_ConditionalOperator(self, n, st):
        out = []
        for s, c in self.evv(n.inner[0], st):
            t = self.truth(c)
            a, b = s.copy(), s.copy()
            a.pc.append(t)
            b.pc.append(z3.Not(t))
            out += self.ev(n.inner[1], a) + self.ev(n.inner[2], b)
        return out

    def e_CXXNewExpr(self, n, st):
        c = [x for x in n.inner if x is not None and x.k in ('CXXConstructExpr', 'ExprWithCleanups')]
        cls = self.cls_of(n.ty)
        r = self.W.fresh('new' + cls, self.W.Ref)
        st.pc.append(r != self.W.null)
        if 'alloc' in st.ghost:
            st.pc.append(z3.Not(z3.Select(st.ghost['alloc'], r)))
            st.ghost['alloc'] = z3.Store(st.ghost['alloc'], r, self.W.true())
        o = Obj(r, cls, True)
        return [(s, self.refv(r, cls)) for s in self.construct(o, c[0] if c else None, st)]

    def construct(self, o, n, st):
        """runs the constructor on o"""
        args = [a for a in n.inner if a is not None] if n is not None else []
        key = None
        ct = (n.x or {}).get('ctorType') if n is not None else None
        if getattr(self.P, 'valued', False) and ct:
            key = self.ctor(o.cls, ct)
            if key is None:
                raise Undecided('constructor of ' + o.cls)
        for k, f in self.P.funcs.items() if key is None else ():
            if f.kind == 'CXXConstructorDecl' and f.name == o.cls and len(f.params) == len(args) and not ('const %s&' % o.cls in k or k.endswith('::%s const&)' % o.cls)):
                key = k
        if key is None:
            if args:
                raise Undecided('constructor of ' + o.cls)
            return [st]
        out = []
        for s, vs in self.seq(args, st):
            out += [q for q, _ in self.invoke(key, o, vs, s)]
        return out

    def ctor(self, cls, ct):
        ct = ct.replace(' noexcept(false)', '').replace(' noexcept', '')
        for k, f in self.P.funcs.items():
            if f.kind == 'CXXConstructorDecl' and f.name == cls and (f.ret or '').replace(' noexcept(false)', '').replace(' noexcept', '') == ct and '::%s::%s(' % (cls, cls) in k:
                return k
        return None

    def newobject(self, cls, s, name='new'):
        r = self.W.fresh(name + cls, self.W.Ref)
        s.pc.append(r != self.W.null)
        if 'alloc' in s.ghost:
            s.pc.append(z3.Not(z3.Select(s.ghost['alloc'], r)))
            s.ghost['alloc'] = z3.Store(s.ghost['alloc'], r, self.W.true())
        o = Obj(r, cls, True)
        if self.hooknew:
            self.hooknew(self, s, o)
        return o

    def e_CXXTemporaryObjectExpr(self, n, st):
        return self.e_CXXConstructExpr(n, st)

    def e_CXXConstructExpr(self, n, st):
        t = ty(self.P, n.ty)
        args = [a for a in n.inner if a is not None and a.k != 'CXXDefaultArgExpr']
        if t.k == 'real':
            out = []
            for s, v in self.evv(args[0], st) if args else [(st, self.realv(self.W.fresh('none', self.W.Real)))]:
                if not isinstance(v, Val) or v.x.sort() != self.W.Real:
                    raise Undecided('expression made from ' + str(args[0].ty))
                out.append((s, v))
            return out
        if getattr(self.P, 'valued', False) and t.k == 'struct' and self.owns(t.name):
            copy = (n.x or {}).get('ctorType', '').startswith('void (const %s &)' % t.name)
            if copy and t.name in self.constant:
                return self.ev(args[0], st)
            out = []
            if copy:
                for s, v in self.ev(args[0], st):
                    if isinstance(v, Obj) and v.exact and v.cls == t.name:
                        out.append((s, v))       # a local object is returned
                        continue
                    o = self.newobject(t.name, s)
                    out += [(q, o) for q, _ in self.invoke(self.ctor(t.name, n.x['ctorType']), o, [v], s)]
                return out
            o = self.newobject(t.name, st)
            return [(q, o) for q in self.construct(o, n, st)]
        if getattr(self.P, 'valued', False) and len(args) == 1 and t.k == 'struct' and self.plain(t.name) and (n.x or {}).get('ctorType', '').startswith('void (const %s &)' % t.name):
            return [(s, self.load(s, v)) for s, v in self.evv(args[0], st)]
        if t.k == 'ref':
            return self.ev(args[0], st) if args else [(st, self.refv(self.W.null))]
        if t.k == 'str':
            return [(st, self.refv(self.W.fresh('str', self.W.Ref)))]
        if t.k == 'iter':
            return self.evv(args[0], st)
        if t.k == 'struct' and t.name == 'pair' and len(args) == 2:
            out = []
            for s, (a, b) in self.seq(args, st):
                d = {}
                for nm, v in (('first', self.rv(s, a)), ('second', self.rv(s, b))):
                    for p, e in v.d.items():
                        d[(nm,) + p] = e
                out.append((s, Val(t, d)))
            return out
        if len(args) == 1 and n.x and 'const' in (n.x.get('ctorType') or '') and '&' in (n.x.get('ctorType') or '') and ty(self.P, args[0].ty).k == t.k:
            return self.evv(args[0], st)
        if len(args) == 1 and ty(self.P, args[0].ty).k == t.k and ty(self.P, args[0].ty).name == t.name:
            return self.evv(args[0], st)
        if t.k in ('set', 'map', 'vec') and not args:
            return [(st, self.default(t))]
        if t.k == 'struct':
            return self.construct_struct(t, n, args, st)
        raise Undecided('constructor of ' + str(n.ty))

    def construct_struct(self, t, n, args, st):
        """a class object by value: its constructor runs on a fresh reference"""
        r = self.W.fresh('tmp' + t.name, self.W.Ref)
        o = Obj(r, t.name, True)
        for f, ft in t.fields:
            if ft.k in ('set', 'map', 'vec', 'str', 'struct'):
                self.fieldlv(o, f, st).put(st, self.default(ft))
        out = []
        for s in self.construct(o, n, st):
            d = {}
            for f, ft in t.fields:
                for p, e in self.rv(s, self.fieldlv(o, f, s)).d.items():
                    d[(f,) + p] = e
            v = Val(t, d)
            v.obj = o
            out.append((s, v))
        return out

    # ---------------------------------------------------------------- calls
    def e_CXXOperatorCallExpr(self, n, st):
        cal = n.inner[0]
        while cal.k != 'DeclRefExpr':
            cal = cal.inner[0]
        op = cal.ref[1]
        args = n.inner[1:]
        t0 = ty(self.P, args[0].ty)
        out = []
        if getattr(self.P, 'valued', False):
            f = self.func(cal.ref)
            if f is not None and f.key and (f.key in self.C or (f.cls and op != 'operator=' and f.cls.split('::')[-1] in self.P.classes and f.body is not None)):
                for s, vs in self.seq([a for a in args if a is not None], st):
                    if f.cls and f.kind == 'CXXMethodDecl':
                        o = vs[0]
                        if isinstance(o, Val):
                            o = LV(lambda q, o=o: o, None, o.t)
                        out += self.invoke(f.key, self.objof(s, o, args[0].ty), vs[1:], s, n.ty)
                    else:
                        out += self.invoke(f.key, None, vs, s, n.ty)
                return out
        if op in ('operator->', 'operator*') and len(args) == 1:
            for s, v in self.ev(args[0], st):
                r = self.rv(s, v)
                out.append((s, self.deref(r, s) if isinstance(r, Iter) else (r if op == 'operator->' else Obj(r.x, self.cls_of(n.ty)))))
            return out
        if op in ('operator++', 'operator--'):
            for s, v in self.ev(args[0], st):
                it = self.rv(s, v)
                if not isinstance(it, Iter) or op == 'operator--':
                    raise Undecided(op)
                v.put(s, self.step(it))
                out.append((s, it if len(args) == 2 else v))
            return out
        for s, vs in self.seq(args, st):
            a = self.rv(s, vs[0])
            b = self.rv(s, vs[1]) if len(vs) > 1 else None
            if op in ('operator==', 'operator!='):
                if isinstance(a, Iter):
                    out.append((s, self.itercmp(op[8:], a, b)))
                elif isinstance(a, Val) and isinstance(b, Val) and a.t.k in ('ref', 'str', 'opaque') and b.d.keys() == {()}:
                    y = b.x
                    if y.sort() != self.W.Ref:
                        y = self.W.null
                    out.append((s, self.boolv(a.x == y if op == 'operator==' else a.x != y)))
                else:
                    raise Undecided('comparison of ' + str(args[0].ty))
            elif op == 'operator[]':
                out.append((s, self.index(s, vs[0], b)))
            elif op == 'operator=':
                self.assign(s, vs[0], b)
                out.append((s, vs[0]))
            elif op == 'operator+' and 'string' in (n.ty or ''):
                out.append((s, self.refv(self.W.fresh('str', self.W.Ref))))
            else:
                raise Undecided('operator %s on %s' % (op, args[0].ty))
        return out

    def keyof(self, c, k):
        kt = c.t.a[0]
        if c.t.k in ('map', 'set') and kt.k == 'struct':
            return self.W.Pair.mk(k.d[('first',)], k.d[('second',)])
        return k.ref if isinstance(k, Obj) else k.x

    def unkey(self, t, x):
        if t.k == 'struct':
            return Val(t, {('first',): self.W.Pair.first(x), ('second',): self.W.Pair.second(x)})
        return Val(t, {(): x})

    def index(self, s, lv, k):
        c = self.rv(s, lv)
        key = self.keyof(c, k) if c.t.k == 'map' else k.x
        if c.t.k == 'map':
            if isinstance(lv, LV):       # operator[] makes the element
                had = z3.Select(c.d[('dom',)], key)
                v = store(self.W, c, key, Val(c.t.a[1], {p: z3.If(had, z3.Select(c.d[('at',) + p], key), self.zero(q)) for p, q in c.t.a[1].leaves(self.W).items()}))
                v.d[('dom',)] = z3.Store(c.d[('dom',)], key, self.W.true())
                lv.put(s, v)
        else:
            self.need(s, 'index within the vector', z3.And(key >= 0, key < c.d[('len',)]))
        return self.elem(lv, c.t, key)

    def elem(self, lv, t, key):
        et = t.a[0] if t.k == 'vec' else t.a[1]
        if not isinstance(lv, LV):
            return item(self.W, lv, key)
        return LV(lambda q: item(self.W, lv.get(q), key), lambda q, v: lv.put(q, store(self.W, lv.get(q), key, v)), et)

    def need(self, s, name, goal):
        self.obl.append((name, list(s.pc), goal))

    # iterators
    def begin(self, lv, s):
        c = self.rv(s, lv)
        tag = c.tag or getattr(lv, 'tag', None)
        if c.t.k == 'vec':
            return Iter(lv, 'vec', cur=self.W.i(0), tag=tag)
        k = c.t.a[0].key(self.W)
        return Iter(lv, c.t.k, seen=z3.K(k, self.W.false()), tag=tag)

    def endit(self, lv, s):
        c = self.rv(s, lv)
        tag = c.tag or getattr(lv, 'tag', None)
        if c.t.k == 'vec':
            return Iter(lv, 'vec', cur=c.d[('len',)], end=True, tag=tag)
        return Iter(lv, c.t.k, end=True, tag=tag, seen=c.d[('dom',)])

    def itercmp(self, op, a, b):
        W = self.W
        if self.probe is not None:
            self.probe.append(('iter', a if not a.end else b))
        if a.kind == 'vec':
            r = a.cur == b.cur
        else:
            if a.end:
                a, b = b, a
            if not b.end:
                raise Undecided('comparison of two iterators')
            dom = b.seen
            if a.seen is None:        # result of find
                r = z3.Not(z3.Select(dom, a.cur))
            else:
                r = W.all([dom.sort().domain()], lambda x: z3.Implies(z3.Select(dom, x), z3.Select(a.seen, x)))
        return self.boolv(r if op == '==' else z3.Not(r))

    def step(self, it):
        if it.kind == 'vec':
            return Iter(it.lv, 'vec', cur=it.cur + 1, tag=it.tag)
        if it.seen is None or it.cur is None:
            raise Undecided('iterator is moved without having been read')
        return Iter(it.lv, it.kind, seen=z3.Store(it.seen, it.cur, self.W.true()), tag=it.tag)

    def deref(self, it, s):
        if it.end:
            raise Undecided('end of a container is read')
        if it.kind == 'vec':
            c = self.rv(s, it.lv)
            self.need(s, 'iterator within the vector', z3.And(it.cur >= 0, it.cur < c.d[('len',)]))
            return self.elem(it.lv, c.t, it.cur)
        if it.cur is None:
            raise Undecided('iterator is read outside of a loop')
        c = self.rv(s, it.lv)
        if it.kind == 'set':
            return self.unkey(c.t.a[0], it.cur)
        self.need(s, 'iterator within the map', z3.Select(c.d[('dom',)], it.cur))
        return (self.unkey(c.t.a[0], it.cur), self.elem(it.lv, c.t, it.cur))

    def e_CXXMemberCallExpr(self, n, st):
        me = n.inner[0]
        while me.k != 'MemberExpr':
            me = me.inner[0]
        args = [a for a in n.inner[1:] if a is not None]
        out = []
        for s, b in self.ev(me.inner[0], st):
            r = self.rv(s, b) if not isinstance(b, tuple) else b
            bt = me.inner[0].ty
            if isinstance(r, Val) and r.t.k in ('set', 'map', 'vec'):
                out += self.stl(me.name, b, r, args, s)
                continue
            if isinstance(r, Val) and r.t.k in ('ref', 'real') and me.name == 'get' and not (me.x or {}).get('isArrow'):
                out.append((s, r))
                continue
            if isinstance(r, Val) and r.t.k == 'ref':
                o = Obj(r.x, self.cls_of(bt))
            elif isinstance(r, Obj):
                o = r
            elif isinstance(r, Val) and r.t.k == 'real':
                o = r
            elif isinstance(r, Val) and r.t.k == 'str':
                out.append((s, self.unknown(ty(self.P, n.ty), me.name)))
                continue
            elif isinstance(r, Val) and r.t.k == 'struct' and isinstance(b, LV):
                o = b
            else:
                raise Undecided('call of ' + str(me.name))
            for s2, vs in self.seq(args, s):
                out += self.call_named(me, o, vs, s2, n)
        return out

    def objof(self, s, o, t):
        if isinstance(o, LV) and o.t is not None and o.t.k == 'ref':
            return Obj(self.rv(s, o).x, self.cls_of(t))
        return o

    def func(self, ref):
        for t in self.P.tus.values():
            f = t.funcs.get(ref[0])
            if f is not None and f.name == ref[1] and t.path == self.cur:
                return f
        for t in self.P.tus.values():
            f = t.funcs.get(ref[0])
            if f is not None and f.name == ref[1]:
                return f
        return None

    def call_named(self, me, o, vs, s, n):
        f = self.func(me.ref)
        key = f.key if f else None
        # virtual call on an object whose class is known exactly
        if key and isinstance(o, Obj) and o.exact:
            sig = key.split('::%s(' % f.name, 1)[-1]
            for k in self.P.funcs:
                if k.endswith('::%s::%s(%s' % (o.cls, f.name, sig)):
                    key = k
        if key is None:
            raise Undecided('call of ' + str(me.ref))
        return self.invoke(key, o, vs, s, n.ty)

    def e_CallExpr(self, n, st):
        cal = n.inner[0]
        while cal.k not in ('DeclRefExpr', 'MemberExpr'):
            cal = cal.inner[0]
        f = self.func(cal.ref)
        args = [a for a in n.inner[1:] if a is not None]
        if f is None or f.key is None:
            raise Undecided('call of ' + str(cal.ref[1]))
        if f.key in self.C and self.C[f.key].pure == 'skip':
            return [(st, self.unknown(ty(self.P, n.ty), f.name, st))]
        out = []
        for s, vs in self.seq(args, st):
            out += self.invoke(f.key, None, vs, s, n.ty)
        return out

    def stl(self, m, lv, c, args, st):
        W = self.W
        out = []
        for s, vs in self.seq(args, st):
            c = self.rv(s, lv)
            a = [self.rv(s, v) for v in vs]
            k = c.t.k
            if m == 'size' and k == 'vec':
                if self.probe is not None:
                    self.probe.append(('size', c.tag or getattr(lv, 'tag', None)))
                out.append((s, self.intv(c.d[('len',)])))
            elif m == 'size':
                out.append((s, self.intv(self.card(c))))
            elif m == 'empty' and k == 'vec':
                out.append((s, self.boolv(c.d[('len',)] == 0)))
            elif m == 'empty':
                dom = c.d[('dom',)]
                out.append((s, self.boolv(W.all([dom.sort().domain()], lambda x: z3.Not(z3.Select(dom, x))))))
            elif m in ('begin', 'cbegin'):
                out.append((s, self.begin(lv, s)))
            elif m in ('end', 'cend'):
                out.append((s, self.endit(lv, s)))
            elif m == 'clear':
                v = self.default(c.t)
                v.tag = c.tag
                lv.put(s, v)
                out.append((s, self.intv(W.i(0))))
            elif m == 'push_back':
                x = a[0]
                if isinstance(x, Obj):
                    x = self.refv(x.ref)
                d = store(W, c, c.d[('len',)], x)
                d.d[('len',)] = c.d[('len',)] + 1
                lv.put(s, d)
                out.append((s, self.intv(W.i(0))))
            elif m == 'reserve':
                out.append((s, self.intv(W.i(0))))
            elif m in ('find', 'count') and k in ('set', 'map'):
                key = self.keyof(c, a[0])
                out.append((s, Iter(lv, k, cur=key, tag=c.tag) if m == 'find' else self.intv(z3.If(z3.Select(c.d[('dom',)], key), W.i(1), W.i(0)))))
            elif m == 'insert' and k == 'set':
                key = self.keyof(c, a[0])
                d = dict(c.d)
                d[('dom',)] = z3.Store(d[('dom',)], key, W.true())
                lv.put(s, Val(c.t, d, c.tag))
                out.append((s, self.intv(W.i(0))))
            elif m == 'erase' and k in ('set', 'map') and isinstance(a[0], (Val, Obj)):
                key = self.keyof(c, a[0])
                d = dict(c.d)
                d[('dom',)] = z3.Store(d[('dom',)], key, W.false())
                lv.put(s, Val(c.t, d, c.tag))
                out.append((s, self.intv(W.i(0))))
            else:
                raise Undecided('%s of a %s' % (m, k))
        return out

    def card(self, c):
        """number of elements: only whether there are any"""
        W = self.W
        dom = c.d[('dom',)]
        f = W.fn('card%d' % hash(str(dom.sort())), dom.sort(), W.Int)
        none = W.all([dom.sort().domain()], lambda x: z3.Not(z3.Select(dom, x)))
        self.axioms.append(f(dom) >= 0)
        self.axioms.append((f(dom) == 0) == none)
        return f(dom)

    # ---------------------------------------------------------------- contracts and bodies
    def invoke(self, key, o, vs, s, rty=None):
        c = self.C.get(key)
        if c is not None and (c.abstract or c.post or c.pure or c.call):
            self.used.add(key)
            return self.by_contract(c, o, vs, s, rty)
        f = self.P.funcs.get(key)
        if f is None:
            raise Undecided('no contract and no body: ' + key)
        return self.inline(f, o, vs, s)

    def by_contract(self, c, o, vs, s, rty):
        s0 = s.copy()
        if c.pure and c.pure != 'skip':
            r = c.pure(Call(self, s0, s, o, vs))
            return [(s, r)]
        if c.pure == 'skip':
            return [(s, self.unknown(ty(self.P, rty), 'r', s) if rty and rty != 'void' else None)]
        return c.call(self, c, Call(self, s0, s, o, vs), rty)

    def apply(self, c, k, havoc, rty=None):
        """obligations of the precondition, havoc, postcondition; the exceptional outcome is kept aside"""
        for nm, g in (c.pre(k) if c.pre else []):
            self.need(k.s, 'precondition of %s: %s' % (c.key.split('(')[0].split('::')[-1], nm), g)
        s = k.s
        for h in havoc:
            if h[0] == 'g':
                s.ghost[h[1]] = self.W.fresh(h[1], s.ghost[h[1]].sort())
            else:
                for p in ty(self.P, self.owner(h[0], h[1])[1]).leaves(self.W):
                    kk = self.owner(h[0], h[1])[0]
                    a = self.heap(s, kk, h[1], p)
                    s.heap[(kk, h[1]) + p] = self.W.fresh('%s.%s' % (kk, h[1]), a.sort())
                    self.typefact(s.heap[(kk, h[1]) + p], p)
        if c.exc:
            e = s.copy()
            e.pc += [g for nm, g in c.exc(k.now(e))]
            self.raised.append(e)
        k.ret = None
        if rty and rty != 'void':
            t = ty(self.P, rty)
            if getattr(self.P, 'valued', False) and t.k == 'struct' and self.owns(t.name):
                k.ret = k.this if '&' in rty else self.newobject(t.name, s, 'ret')
            else:
                k.ret = self.unknown(t, 'ret', s)
        s.pc += [g for nm, g in c.post(k)]
        return [(s, k.ret)]

    def inline(self, f, o, vs, s):
        if self.depth > 6:
            raise Undecided('recursion without contract: ' + f.key)
        self.inlined.add(f.key)
        cur, self.cur = self.cur, f.tu
        self.depth += 1
        keep = s.env
        out = []
        try:
            ss = self.bind(f, o, vs, s)
            for st in ss:
                for q, (k, v) in self.stmt(f.body, st):
                    if k == 'throw':
                        q.env = self.merged(keep, q.env)
                        self.raised.append(q)
                        continue
                    if isinstance(v, LV) and '&' not in (f.ret or '').split('(')[0]:
                        v = self.rv(q, v)
                    q.env = self.merged(keep, q.env)
                    out.append((q, v))
        finally:
            self.depth -= 1
            self.cur = cur
        return out

    def baseinit(self, o, es, ss):
        """the constructor of a base class"""
        if not getattr(self.P, 'valued', False):
            return ss
        n = es[0]
        while n.k in ('ExprWithCleanups',):
            n = n.inner[0]
        key = self.ctor(self.cls_of(n.ty), (n.x or {}).get('ctorType') or '')
        if key is None:
            raise Undecided('constructor of the base class ' + str(n.ty))
        out = []
        for s in ss:
            for q, vs in self.seq([a for a in n.inner if a is not None], s):
                keep = q.env
                for r, _ in self.invoke(key, Obj(o.ref, self.cls_of(n.ty)), vs, q):
                    r.env = self.merged(keep, r.env)
                    out.append(r)
        return out

    def merged(self, keep, env):
        """environment of the caller with what the callee wrote through references"""
        r = dict(keep)
        for k, v in env.items():
            if isinstance(k, tuple) and k in keep:
                r[k] = v
        return r

    def bind(self, f, o, vs, s):
        s.env = {k: v for k, v in s.env.items() if isinstance(k, tuple)}
        if o is not None:
            s.env['this'] = o
        for (i, nm, t, _), v in zip(f.params, vs):
            if (t or '').rstrip().endswith('&') and (isinstance(v, (LV, Obj))):
                s.env[i] = v
            else:
                self.local(s, i, self.rv(s, v), nm)
        ss = [s]
        for anyi, base, es in f.inits:
            if anyi is None:
                ss = self.baseinit(o, es, ss)
                continue
            fn = anyi.get('name')
            T = self.owner(o.cls, fn)[1] if isinstance(o, Obj) else [t.raw for nn, t in o.t.fields if nn == fn][0]
            new = []
            for q in ss:
                if not isinstance(o, Obj):
                    for q2, v in (self.evv(es[0], q) if es else [(q, self.default(ty(self.P, T)))]):
                        self.assign(q2, LV(lambda z, fn=fn: field(o.get(z), fn), lambda z, w, fn=fn: o.put(z, put_field(o.get(z), fn, w)), ty(self.P, T), fn), v)
                        new.append(q2)
                elif (T or '').rstrip().endswith('&'):
                    for q2, v in self.ev(es[0], q):
                        if not isinstance(v, LV):
                            raise Undecided('reference member')
                        q2.alias[(o.ref.get_id(), fn)] = v
                        new.append(q2)
                else:
                    for q2, v in (self.evv(es[0], q) if es else [(q, self.default(ty(self.P, T)))]):
                        lv = self.fieldlv(o, fn, q2)
                        self.assign(q2, lv, v)
                        new.append(q2)
            ss = new
        return ss

    def local(self, s, i, v, name=None):
        if isinstance(v, Obj):
            s.env[i] = v
            return
        s.env[('v', i, self.depth)] = v
        s.env[i] = self.locallv(('v', i, self.depth), v, name)

    def locallv(self, i, v, name):
        def get(q):
            r = q.env[i]
            if isinstance(r, Val) and r.tag is None and name:
                r = Val(r.t, r.d, name)
            return r

        def put(q, x):
            q.env[i] = x
        return LV(get, put, v.t if isinstance(v, Val) else None, name)

    # ---------------------------------------------------------------- statements: list of (state, (kind, value))
    def stmt(self, n, st):
        if n is None or n.k in ('NullStmt',):
            return [(st, ('next', None))]
        m = getattr(self, 's_' + n.k, None)
        if m is None:
            r = [(s, ('next', None)) for s, v in self.guarded(n, st)]
            return r + self.pop()
        return m(n, st)

    def guarded(self, n, st):
        return self.ev(n, st)

    def pop(self):
        r, self.raised = self.raised, []
        return [(s, ('throw', None)) for s in r]

    def s_CompoundStmt(self, n, st):
        out, cur = [], [st]
        for c in n.inner:
            nxt = []
            for s in cur:
                for q, (k, v) in self.stmt(c, s):
                    if k == 'next':
                        nxt.append(q)
                    else:
                        out.append((q, (k, v)))
            cur = nxt
            if len(cur) + len(out) > self.limit:
                raise Undecided('too many paths')
        return out + [(s, ('next', None)) for s in cur]

    def s_ExprWithCleanups(self, n, st):
        i = n.inner[0]
        if i.k == 'CXXThrowExpr':
            return [(st, ('throw', None))]
        return [(s, ('next', None)) for s, v in self.ev(i, st)] + self.pop()

    def s_CXXThrowExpr(self, n, st):
        return [(st, ('throw', None))]

    def s_ReturnStmt(self, n, st):
        if not n.inner or n.inner[0] is None:
            return [(st, ('ret', None))]
        return [(s, ('ret', v)) for s, v in self.ev(n.inner[0], st)] + self.pop()

    def s_ContinueStmt(self, n, st):
        return [(st, ('cont', None))]

    def s_BreakStmt(self, n, st):
        return [(st, ('break', None))]

    def s_IfStmt(self, n, st):
        inner = n.inner
        out = []
        for s, c in self.evv(inner[0], st):
            t = z3.simplify(self.truth(c))
            if not z3.is_false(t):
                a = s.copy()
                a.pc.append(t)
                out += self.stmt(inner[1], a)
            if not z3.is_true(t):
                b = s.copy()
                b.pc.append(z3.Not(t))
                out += self.stmt(inner[2], b) if len(inner) > 2 else [(b, ('next', None))]
        return out + self.pop()

    def s_SwitchStmt(self, n, st):
        """cases that end in return or break"""
        body = n.inner[-1]
        out = []
        for s, v in self.evv(n.inner[0], st):
            x, rest, items = v.x, [], []

            def add(c):
                if c.k == 'CaseStmt':
                    items.append((c.inner[0], []))
                    add(c.inner[-1])
                elif c.k == 'DefaultStmt':
                    items.append((None, []))
                    add(c.inner[-1])
                else:
                    items[-1][1].append(c)
            for c in body.inner:
                add(c)
            conds, dflt = [], None
            for j, (lab, _) in enumerate(items):
                if lab is None:
                    dflt = j
                else:
                    conds.append((j, x == self.evv(lab, s)[0][1].x))
            start = [(j, c) for j, c in conds] + [(dflt if dflt is not None else len(items), z3.Not(z3.Or([c for _, c in conds] + [self.W.false()])))]
            for j, c in start:
                c = z3.simplify(c)
                if z3.is_false(c):
                    continue
                q = s.copy()
                if not z3.is_true(c):
                    q.pc.append(c)
                todo = [z for _, b in items[j:] for z in b]
                for r, (k, w) in self.body(todo, q):
                    out.append((r, ('next', None) if k in ('next', 'break') else (k, w)))
        return out + self.pop()

    def s_DeclStmt(self, n, st):
        cur = [st]
        for d in n.inner:
            if d.k != 'VarDecl':
                continue
            nxt = []
            for s in cur:
                init = d.inner[-1] if d.inner else None
                ref = (d.ty or '').rstrip().endswith('&')
                t = ty(self.P, d.ty)
                if init is None:
                    v = self.unknown(t, d.name, s)
                    self.local(s, d.id, v, d.name)
                    nxt.append(s)
                elif getattr(self.P, 'valued', False) and t.k == 'struct' and not ref and self.owns(t.name):
                    while init.k in ('ExprWithCleanups',):
                        init = init.inner[0]
                    if init.k != 'CXXConstructExpr':
                        raise Undecided('object made by ' + init.k)
                    o = self.newobject(t.name, s, d.name)
                    for q in self.construct(o, init, s):
                        q.env[d.id] = o
                        nxt.append(q)
                elif t.k == 'struct' and t.name != 'pair' and init.k == 'CXXConstructExpr' and not ref and self.owns(t.name):
                    r = self.W.fresh(d.name, self.W.Ref)
                    s.pc.append(r != self.W.null)
                    if 'alloc' in s.ghost:
                        s.pc.append(z3.Not(z3.Select(s.ghost['alloc'], r)))
                        s.ghost['alloc'] = z3.Store(s.ghost['alloc'], r, self.W.true())
                    o = Obj(r, t.name, True)
                    for f, ft in t.fields:
                        if ft.k in ('set', 'map', 'vec') and not self.owner(t.name, f)[1].rstrip().endswith('&'):
                            self.fieldlv(o, f, s).put(s, self.default(ft))
                    for q in self.construct(o, init, s):
                        q.env[d.id] = o
                        hook = self.newobj.get(t.name)
                        if hook:
                            hook(self, q, o)
                        nxt.append(q)
                elif ref:
                    for q, v in self.ev(init, s):
                        if isinstance(v, (LV, Obj, tuple)):
                            q.env[d.id] = v
                        else:
                            self.local(q, d.id, v, d.name)
                        nxt.append(q)
                else:
                    for q, v in self.evv(init, s):
                        v = self.load(q, v)
                        if isinstance(v, Obj):
                            v = self.refv(v.ref)
                        if isinstance(v, Val) and v.d.keys() == {()}:
                            if t.k == 'bool' and v.x.sort() == self.W.Int:
                                v = self.boolv(v.x != 0)
                            v = Val(t if t.k in ('ref', 'int', 'bool') else v.t, v.d, v.tag)
                        self.local(q, d.id, v, d.name)
                        nxt.append(q)
            cur = nxt
        return [(s, ('next', None)) for s in cur] + self.pop()

    def owns(self, cls):
        """class with methods or reference members: an object, not a plain structure"""
        i = self.P.classes.get(cls)
        return bool(i and (i['bases'] or any((t or '').rstrip().endswith('&') for _, t in i['fields'])))

    def s_ForStmt(self, n, st):
        init, _, cond, inc, body = n.inner[:5]
        out = []
        for s, (k, v) in self.stmt(init, st):
            if k != 'next':
                out.append((s, (k, v)))
                continue
            out += self.loop(cond, inc, body, s)
        return out

    def s_WhileStmt(self, n, st):
        return self.loop(n.inner[0], None, n.inner[-1], st)

    def s_CXXForRangeStmt(self, n, st):
        # init-statement, range, begin, end, condition, increment, variable, body
        inner = [c for c in n.inner]
        body = inner[-1]
        var = inner[-2]
        inc, cond = inner[-3], inner[-4]
        out = []
        cur = [st]
        for d in inner[:-4]:
            if d is None:
                continue
            nxt = []
            for s in cur:
                for q, (k, v) in self.stmt(d, s):
                    nxt.append(q)
            cur = nxt
        for s in cur:
            out += self.loop(cond, inc, [var, body], s)
        return out

    def body(self, b, s):
        if isinstance(b, list):
            out, cur = [], [s]
            for c in b:
                nxt = []
                for q in cur:
                    for r, (k, v) in self.stmt(c, q):
                        if k == 'next':
                            nxt.append(r)
                        else:
                            out.append((r, (k, v)))
                cur = nxt
            return out + [(q, ('next', None)) for q in cur]
        return self.stmt(b, s)

    # ---------------------------------------------------------------- loops
    def head(self, cond, s):
        """states in which the condition holds and in which it does not; a set iterator gets its element"""
        yes, no = [], []
        for q, c in self.evv(cond, s):
            t = self.truth(c)
            a, b = q.copy(), q.copy()
            a.pc.append(t)
            b.pc.append(z3.Not(t))
            yes.append(a)
            no.append(b)
        return yes, no

    def element(self, key, q):
        """a set or map iterator that is not at the end refers to some element that was not passed"""
        it = q.env[key]
        if isinstance(it, Iter) and it.kind != 'vec' and it.seen is not None:
            c = self.rv(q, it.lv)
            dom = c.d[('dom',)]
            e = self.W.fresh('elem', dom.sort().domain())
            q.pc += [z3.Select(dom, e), z3.Not(z3.Select(it.seen, e))]
            if self.W.finite:
                q.pc.append(z3.Or([e == x for x in self.W.dom(e.sort())]))
            q.env[key] = Iter(it.lv, it.kind, seen=it.seen, cur=e, tag=it.tag)

    def feasible(self, s):
        z = z3.Solver(ctx=self.W.ctx)
        z.set('timeout', 1000)
        for a in self.axioms:
            z.add(a)
        z.add(*s.pc)
        return z.check() != z3.unsat

    def iterator(self, cond, s):
        self.probe = []
        no = len(self.obl)
        self.head(cond, s.copy())
        del self.obl[no:]
        pr, self.probe = self.probe, None
        tag, key = None, None
        for k, v in pr:
            if k == 'iter':
                tag = v.tag
                for kk, vv in s.env.items():
                    if isinstance(kk, tuple) and vv is v:
                        key = kk
            elif k == 'size':
                tag = tag or v
        for k, v in pr:
            if k == 'cmp' and key is None and ('v', v, self.depth) in s.env:
                key = ('v', v, self.depth)
        if key is not None and tag is None and not isinstance(s.env[key], Iter):
            tag = 'int'
        return key, tag

    def place(self, q, key):
        i = q.env[key]
        return (i.cur if i.kind == 'vec' else i.seen) if isinstance(i, Iter) else i.x

    def unrolled(self, cond, inc, body, s):
        """the iterations themselves, up to a bound (refutations only)"""
        out, cur = [], [s]
        for n in range(self.unroll + 1):
            nxt = []
            for q in cur:
                k, tag = self.iterator(cond, q)
                try:
                    spec = self.spec(tag, cond)
                except Undecided:
                    spec = None
                yes, no = self.head(cond, q)
                out += [(x, ('next', None)) for x in no if self.feasible(x)]
                for x in yes:
                    if not self.feasible(x):
                        continue
                    if k is not None:
                        self.element(k, x)
                    b0 = x.copy()
                    if n == self.unroll:
                        self.cut += 1
                        continue
                    self.stack.append(k)
                    try:
                        rs0 = self.body(body, x)
                    finally:
                        self.stack.pop()
                    for r, (kd, v) in rs0:
                        if not self.feasible(r):
                            continue
                        if kd in ('next', 'cont'):
                            if spec and spec.ghost and k is not None:
                                spec.ghost(Call(self, self.s0, r, self.this, self.args), Call(self, self.s0, b0, self.this, self.args), self.place(b0, k))
                            nxt += [y for y, _ in self.ev(inc, r)] if inc is not None else [r]
                        elif kd == 'break':
                            out.append((r, ('next', None)))
                        else:
                            out.append((r, (kd, v)))
            cur = nxt
            if len(cur) + len(out) > self.limit:
                raise Undecided('too many paths')
        return out + self.pop()

    def loop(self, cond, inc, body, s):
        if self.unroll:
            return self.unrolled(cond, inc, body, s)
        itkey, tag = self.iterator(cond, s)
        if itkey is None:
            raise Undecided('loop over something unknown')
        spec = self.spec(tag, cond)

        it0 = s.env[itkey]
        kind = it0.kind if isinstance(it0, Iter) else 'int'
        mod = self.modified(cond, inc, body, s, itkey) | {('g', g) for g in spec.gs}
        entry = s.copy()

        def pos(q):
            i = q.env[itkey]
            return (i.cur if i.kind == 'vec' else i.seen) if isinstance(i, Iter) else i.x

        def inv(q):
            r = spec.inv(Call(self, self.s0, q, self.this, self.args), Call(self, self.s0, entry, self.this, self.args), pos(q))
            i = q.env[itkey]
            if kind in ('vec', 'int'):
                r = [('position', pos(q) >= 0)] + r
                if kind == 'vec':
                    r = [('position', pos(q) <= self.rv(q, i.lv).d[('len',)])] + r
            else:
                dom = self.rv(q, i.lv).d[('dom',)]
                r = [('passed elements', self.W.all([dom.sort().domain()], lambda x: z3.Implies(z3.Select(i.seen, x), z3.Select(dom, x))))] + r
            return r
        for nm, g in inv(s):
            self.need(s, 'loop over %s, on entry: %s' % (tag, nm), g)
        h = s.copy()
        self.havoc(h, mod, itkey, kind)
        h.pc += [g for nm, g in inv(h)]
        yes, no = self.head(cond, h)
        out = [(q, ('next', None)) for q in no]
        for q in yes:
            self.element(itkey, q)
            b0 = q.copy()
            self.stack.append(itkey)
            try:
                rs0 = self.body(body, q)
            finally:
                self.stack.pop()
            for r, (k, v) in rs0:
                if k in ('next', 'cont'):
                    if spec.ghost:
                        spec.ghost(Call(self, self.s0, r, self.this, self.args), Call(self, self.s0, b0, self.this, self.args), pos(b0))
                    rs = [(x, None) for x in [r]]
                    if inc is not None:
                        rs = self.ev(inc, r)
                    for x, _ in rs:
                        for nm, g in inv(x):
                            self.need(x, 'loop over %s, kept: %s' % (tag, nm), g)
                elif k == 'break':
                    out.append((r, ('next', None)))
                else:
                    out.append((r, (k, v)))
        return out + self.pop()

    def spec(self, tag, cond):
        if id(cond) not in self.specs:
            for l in self.loops:
                if not any(l is x for x in self.specs.values()) and (l.tag is None or l.tag == tag):
                    self.specs[id(cond)] = l
                    break
            else:
                raise Undecided('no invariant for the loop over %s' % tag)
        return self.specs[id(cond)]

    def havoc(self, h, mod, itkey, kind):
        for k in mod:
            if k[0] == 'env':
                kk = k[1]
                v = h.env[kk]
                if isinstance(v, Iter):
                    if v.kind == 'vec':
                        h.env[kk] = Iter(v.lv, 'vec', cur=self.W.fresh('pos', self.W.Int), tag=v.tag, end=v.end)
                    else:
                        h.env[kk] = Iter(v.lv, v.kind, seen=self.W.fresh('seen', v.seen.sort()) if v.seen is not None else None, tag=v.tag, end=v.end)
                else:
                    n = self.unknown(v.t, 'l%s' % v.tag, h)
                    n.tag = v.tag
                    h.env[kk] = n
            elif k[0] == 'g':
                h.ghost[k[1]] = self.W.fresh(k[1], h.ghost[k[1]].sort())
            else:
                h.heap[k[1]] = self.W.fresh('.'.join(map(str, k[1])), h.heap[k[1]].sort() if k[1] in h.heap else self.base[k[1]].sort())
                self.typefact(h.heap[k[1]], k[1])

    def modified(self, cond, inc, body, s, itkey):
        mod = {('env', itkey)}
        keep = (list(self.obl), set(self.used), set(self.inlined))
        hasghost = False
        while True:
            h = s.copy()
            self.havoc(h, mod, itkey, None)
            b = h.copy()
            new = set()
            yes, _ = self.head(cond, h)
            self.obl = list(keep[0])
            raised, self.raised = self.raised, []
            for q in yes:
                self.element(itkey, q)
                self.stack.append(itkey)
                try:
                    rs0 = self.body(body, q)
                finally:
                    self.stack.pop()
                for r, (k, v) in rs0:
                    rs = [r]
                    if k in ('next', 'cont') and inc is not None:
                        rs = [x for x, _ in self.ev(inc, r)]
                    for x in rs:
                        for kk, v0 in b.env.items():
                            if isinstance(kk, tuple) and x.env.get(kk) is not v0:
                                new.add(('env', kk))
                        for kk, v0 in x.heap.items():
                            if kk in b.heap and not v0.eq(b.heap[kk]) or kk not in b.heap and not v0.eq(self.base[kk]):
                                new.add(('h', kk))
                        for kk, v0 in x.ghost.items():
                            if kk not in b.ghost or not v0.eq(b.ghost[kk]):
                                new.add(('g', kk))
            self.raised = raised
            self.obl, self.used, self.inlined = keep[0][:], keep[1], keep[2]
            if new <= mod:
                return mod
            mod |= new

    # ---------------------------------------------------------------- one function
    def verify(self, key):
        c = self.C[key]
        f = self.P.funcs.get(key)
        if f is None or f.body is None:
            raise Undecided('no body of ' + key)
        W = self.W
        s = St()
        self.cur = f.tu
        self.raised = []
        self.newobj = getattr(c, 'newobj', {}) or {}
        self.contract, self.exactcls = c, getattr(c, 'exactcls', False)
        this = None
        if f.cls and not f.static:
            this = Obj(W.fresh('this', W.Ref), f.cls.split('::')[-1], exact=f.kind == 'CXXConstructorDecl')
            s.pc.append(this.ref != W.null)
            s.env['this'] = this
        args = []
        for i, nm, t, _ in f.params:
            T = ty(self.P, t)
            if T.k == 'struct' and self.owns(T.name) or (T.k == 'struct' and T.name not in ('pair',) and t.rstrip().endswith('&') and self.abstract(T.name)) or T.k == 'opaque':
                o = Obj(W.fresh(nm or 'arg', W.Ref), T.name.split('::')[-1])
                args.append(o)
                s.env[i] = o
            else:
                v = self.unknown(T, nm or 'arg', s)
                self.local(s, i, v, nm)
                args.append(v)
        for g, mk in c.ghosts.items():
            s.ghost[g] = mk(W)
        if c.setup:
            c.setup(Call(self, s, s, this, args))
        if f.kind == 'CXXConstructorDecl':
            for fn, T in [(a, b) for a, b in self.P.classes[this.cls]['fields']]:
                t = ty(self.P, T)
                if t.k in ('set', 'map', 'vec') and not T.rstrip().endswith('&'):
                    self.fieldlv(this, fn, s).put(s, self.default(t))
        self.this, self.args = this, args
        self.s0 = s.copy()
        k = Call(self, self.s0, s, this, args)
        pre = [g for nm, g in (c.pre(k) if c.pre else [])]
        s.pc += pre
        self.s0.pc += pre
        self.loops = list(c.loops)
        env = s.env
        ss = [s]
        if f.inits:
            ss = self.inits(f, this, s)
        paths = 0
        self.final = []
        for st in ss:
            for q, (kd, v) in self.stmt(f.body, st):
                paths += 1
                self.final.append((q, kd))
                k = Call(self, self.s0, q, this, args, self.rv(q, v) if v is not None and not isinstance(v, (tuple, Obj)) else v)
                if kd == 'throw':
                    for nm, g in (c.exc(k) if c.exc else [('no exception', W.false())]):
                        self.need(q, 'on exception: ' + nm, g)
                else:
                    for nm, g in c.post(k) + (c.frame(k) if getattr(c, 'frame', None) else []):
                        self.need(q, nm, g)
        if self.unroll and any(l.ghost and not any(l is x for x in self.specs.values()) for l in c.loops):
            raise Undecided('ghost code of a loop found no place')
        return paths

    def abstract(self, n):
        return n in ('Visitor', 'Scanner')

    def inits(self, f, o, s):
        ss = [s]
        for anyi, base, es in f.inits:
            if anyi is None:
                ss = self.baseinit(o, es, ss)
                continue
            fn = anyi.get('name')
            T = self.owner(o.cls, fn)[1]
            new = []
            for q in ss:
                if (T or '').rstrip().endswith('&'):
                    for q2, v in self.ev(es[0], q):
                        q2.alias[(o.ref.get_id(), fn)] = v
                        new.append(q2)
                else:
                    for q2, v in (self.evv(es[0], q) if es else [(q, self.default(ty(self.P, T)))]):
                        self.assign(q2, self.fieldlv(o, fn, q2), v)
                        new.append(q2)
            ss = new
        return ss
