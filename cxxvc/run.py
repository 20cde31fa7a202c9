"""Context of a verification and the runner: every path of a function body against its contract."""
import sys, time, traceback, os
sys.setrecursionlimit(60000)
from contracts import *
import contracts as C
import loops
import refute

MATDIMS = [(1, 2, 1), (1, 1, 2), (2, 2, 2), (2, 2, 3), (1, 3, 1), (2, 3, 3), (2, 3, 2)]


LEAVES = frozenset(['Int', 'Real', 'Zero', 'Symbol'])


class Ctx:
    def __init__(self, P, key, con, secs=60):
        self.P, self.key, self.con = P, key, con
        self.nsmt = 0
        self.tsmt = 0.0
        self.deadline = time.time() + secs
        self.domain = ALL
        self.invariant = C.INV
        self.inlined = set()
        self.used = set()
        self.recursive_ok = set()
        self.unroll = set()
        self.cand = {}
        self.power = {}
        self.forall = {}
        self.bounded = False
        self.elementwise = False
        self.issub = False
        self.coarse = False
        self.WRT = None
        self.SUB = None
        self.short = {short(k): k for k in P.funcs}
        self.assumed = set()

    scalarinv = staticmethod(C.be_scalar)

    # ---- values
    def valterm(self, e, o):
        t = C.fieldterm(e, o)
        if t is None:
            raise Unsupported('value of %s' % o)
        return t

    def wrt(self, e):
        return self.WRT

    def mulshape(self, e, a, b):
        return C.mulshape(e, a, b)

    def constant(self, e, o, wrt):
        if o.facts.get('const') is not None:
            return o.facts['const']
        k = e.rep(o).facts.get('kind')
        if k is not None and wrt == 't' and e.entails(z3.Or(k == self.P.enums['CONSTANT'], k == self.P.enums['PARAMETER'])):
            return True     # constants and parameters do not change in time
        if isinstance(wrt, tuple) and wrt[0] == 'obj' and any({e.rep(x), e.rep(y)} == {e.rep(o), e.rep(wrt[1])} for x, y in e.distinct):
            return True     # a symbol does not depend on another one
        return False

    def opq_link(self, e, q):
        ts = [T(o) for o in q.conc]
        if not ts:
            return
        own = q.owner
        if own is None:
            if q.total is None:
                return
            k = q.kind
            t = ts[0]
            for x in ts[1:]:
                t = ('mul', t, x)
            e.solve(q.total, t if k == 'Mul' else ('add', tuple(ts)))
            return
        if q.kind == 'Add':
            if not any(o.shape is own.shape for o in q.conc):
                e.assume(z3.Or(zi(own.shape.nd) == 0, *[zi(o.shape.nd) != 0 for o in q.conc]))
            e.setterm(own, ('add', (('zero', own.shape.t()),) + tuple(ts)))
        elif q.kind == 'Mul':
            sh = q.conc[0].shape
            t = ts[0]
            for x in q.conc[1:]:
                e.assume(conforms_mul(sh, x.shape))
                sh = C.mulshape(e, sh, x.shape)
                t = ('mul', t, T(x))
            e.assume(e.shape_eq(sh, own.shape))
            e.setterm(own, t)

    def opq_props(self, e, q, o, i):
        own = q.owner
        sh = own.shape if own is not None else getattr(q, 'tshape', None)
        if q.kind == 'Add' and sh is not None:
            e.assume(z3.Or(zi(o.shape.nd) == 0, z3bool(e.shape_eq(o.shape, sh))))
        if 'scalar' in q.props:
            C.be_scalar(e, o)

    def unified(self, e, r):
        if e.mats:
            C.same_elements(e, r)

    def matclass(self, e, o):
        return matclass(e, o)

    def matget(self, e, o, i, j):
        return C.matget(e, o, i, j)

    def index(self, e, cls, o, i, j):
        k = ('index', cls, o.shape.t(), i, j)
        if k not in e.consts:
            f = self.P.funcs.get('Symbolics::%s::getIndex(unsigned long, unsigned long) const' % cls)
            if f is None:
                raise Unsupported('getIndex')
            e.consts[k] = e.body(f, o, [i, j])
        return e.consts[k]

    # ---- types
    def subtypes(self, t):
        out = set()
        for c in ALL | {'Bool', 'Eye', 'Unknown'}:
            x = c
            seen = 0
            todo = [c]
            while todo:
                x = todo.pop()
                if x == t:
                    out.add(c)
                    break
                for b in self.P.classes.get(x, {}).get('bases', []):
                    todo.append(strip(b).split('::')[-1])
        if not out:
            raise Unsupported('class ' + t)
        return out

    def is_basic(self, cls):
        if cls in ('Basic',):
            return True
        for b in self.P.classes.get(cls, {}).get('bases', []):
            if self.is_basic(strip(b).split('::')[-1]):
                return True
        return False

    def typename(self, cls):
        return cls if 'Type_' + cls in self.P.enums else ('Matrix' if cls == 'SymmetricMatrix' else None)

    def mro(self, cls):
        out = [cls]
        for b in self.P.classes.get(cls, {}).get('bases', []):
            out += self.mro(strip(b).split('::')[-1])
        return out

    # ---- calls
    def contract(self, key):
        return C.TABLE.get(short(key))

    def relation(self, e, kind, a, b):
        """order and equality of two expressions, the same whichever way and however often it is asked:
        precedes / follows / neither, which means the same value; equal (both ways) or not"""
        a, b = e.rep(a), e.rep(b)
        if a is b:
            return kind == 'eq'
        for k, x, y, r in e.related:
            if k == kind and {e.rep(x), e.rep(y)} == {a, b}:
                return r if kind == 'eq' or e.rep(x) is a else not r
        differ = any(k == 'eq' and {e.rep(x), e.rep(y)} == {a, b} for k, x, y, r in e.related)
        r = e.choose(2 if kind == 'eq' or differ else 3, kind)      # neither precedes the other: they are equal
        if kind == 'eq' and r == 0 or kind != 'eq' and r == 2:
            c = e.shape_eq(a.shape, b.shape)
            if c is False or not (a.types & b.types or a.types & NUM and b.types & NUM):
                raise PathEnd('shape')
            e.assume(c)
            if not e.feasible():
                raise PathEnd('shape')
            e.unify(a, b)
            return kind == 'eq'
        e.related.append((kind, a, b, kind != 'eq' and r == 0))
        return kind != 'eq' and r == 0

    def use(self, e, c, this, vals):
        self.used.add(c.key)
        if self.con.related and e.inbody:
            k = {'operator==(BP const&, BP const&)': 'eq', 'operator!=(BP const&, BP const&)': 'ne', 'operator<(BP const&, BP const&)': 'ltp'}.get(c.key)
            if k is not None:
                return not self.relation(e, 'eq', *vals) if k == 'ne' else self.relation(e, k, *vals)
        if c.argty:
            for i, ts in c.argty.items():
                if not (vals[i].types <= frozenset(ts)):
                    if not e.istype(vals[i], ts):
                        raise Unsupported('precondition of %s' % c.key)
        if c.scope is not None:
            s = c.scope(e, this, vals)
            if s is not None and not e.decide(s):
                raise Unsupported('outside the scope of %s' % c.key)
        if c.thisty and isinstance(this, Obj):
            if not e.istype(this, [c.thisty]):
                raise PathEnd('type')
        if c.pre is not None:
            # at a call the precondition is a fact to be checked
            if c.key.startswith('Pow::New'):
                if not e.istype(vals[1], NUM):
                    raise CThrow('InternalError')
        o = c.fn(e, this, vals)
        return self.result(e, c, o, this, vals)

    def result(self, e, c, o, this, vals):
        if o.throws is not False and o.throws is not None:
            if o.lenient is not None and e.decide(o.lenient):
                if e.choose(2, 'refused') == 0:
                    raise CThrow('error')
                if e.decide(o.throws):
                    return e.obj()      # the contract says nothing about this result
            elif e.decide(o.throws):
                raise CThrow('error')
        if o.ret == 'shape':
            return o.val.copy()
        if o.ret == 'bool':
            if o.exact is not None:
                r = e.decide(o.exact)
            else:
                r = e.choose(2, c.key) == 0
            if o.facts:
                o.facts(e, r)
            return r
        r = e.obj(types=o.types, shape=o.shape.copy())
        if o.term is not None:
            if r.term is None and r.ty() is None and o.term[0] != 'obj':
                r.term = o.term
            else:
                e.setterm(r, o.term)
        return r

    def method(self, e, o, f, vals):
        nm = f.name
        np = len(f.params)
        if nm == 'simplify' and np == 0:
            if not o.types <= LEAVES:       # simplifying a number or symbol changes no other object
                e.epoch += 1
            self.used.add('Basic::simplify()')
            r = e.obj(types=NUM if o.types <= NUM else None, shape=o.shape.copy())
            e.setterm(r, T(o))
            return r
        if nm == 'der' and np == 0:
            self.used.add('Basic::der()')
            r = e.obj(shape=o.shape.copy())
            r.term = ('D', T(o), 't')
            return r
        if nm == 'der' and np == 1:
            self.used.add('Basic::der(BP const&)')
            r = e.obj(shape=o.shape.copy())
            if self.WRT is not None and self.WRT[1] is not None and e.rep(vals[0]) is e.rep(self.WRT[1]):
                r.term = ('D', T(o), self.WRT)
            else:
                r.term = ('D', T(o), T(vals[0]))
            return r
        if nm == 'subs' and np == 2 and self.SUB is not None:
            if vals[0] is self.SUB[0] and vals[1] is self.SUB[1]:
                self.used.add('Basic::subs(CBP const&, BP const&)')
                if o.types <= NUM:
                    return o
                r = e.obj(shape=o.shape.copy())
                r.term = ('sub', T(o))
                return r
        if nm == 'getAtoms' and np == 0:
            self.assumed.add('%s: any set' % short(f.key))
            n = e.skolem('atoms')
            e.assume(n >= 0)
            return Seq([Opq(e, n)])
        if nm == 'iterateExp' and np == 1 and getattr(getattr(vals[0], 'v', vals[0]), 'cls', '').endswith(('Scalarizer', 'visitor')):
            # a walk with a visitor that keeps values (its own contract)
            self.used.add('Element::Scalarizer::process_Arg(BP const&)')
            self.used.add('Basic::iterateExp(Basic::Iterator&)')
            if o.types <= NUM:
                return o
            e.epoch += 1
            r = e.obj(shape=o.shape.copy())
            e.setterm(r, T(o))
            return r
        if nm == 'getType' and np == 0:
            return e.getfield(o, 'm_type')
        if nm == 'getShape' and np == 0:
            return o.shape
        if nm in ('operator==',) and np == 1 and f.cls == 'Basic' or nm == 'operator==' and np == 1 and short(f.key).endswith('operator==(Basic const&) const') and f.key != self.key:
            x = vals[0]
            if isinstance(x, Obj) and self.con.related:
                self.used.add('Basic::operator==(Basic const&) const')
                return self.relation(e, 'eq', o, x)
            if isinstance(x, Obj) and self.SUB is not None and x is self.SUB[0]:
                # compared with a symbol: true for that symbol only
                self.used.add('Symbol::operator==(Basic const&) const')
                if not e.istype(o, ['Symbol']):
                    return False
                return e.same_symbol(o, x)
            if isinstance(x, Obj) and o.types == {'Symbol'} and x.types == {'Symbol'} and f.key != self.key:
                self.used.add('Symbol::operator==(Basic const&) const')
                return e.same_symbol(o, x)
            if isinstance(x, Obj):
                self.used.add('Basic::operator==(Basic const&) const')
                c = C.TABLE['operator==(BP const&, BP const&)']
                out = C.eq_out(e, None, [o, x])
                return self.result(e, c, out, None, [o, x])
        if nm == 'operator<' and np == 1 and short(f.key).endswith('operator<(Basic const&) const') and short(f.key) != self.key and self.con.related and isinstance(vals[0], Obj):
            self.used.add('Basic::operator<(Basic const&) const')
            return self.relation(e, 'lt', o, vals[0])
        return NotImplemented

    def dispatch(self, e, o, f):
        key = f.key
        cls = f.cls
        ty = o.ty()
        pat = 'Symbolics::%s::' % cls
        if not key or pat not in key:
            return f
        if not any(key.replace(pat, 'Symbolics::%s::' % c) in self.P.virtuals for c in self.mro(cls)):
            return f        # not virtual: the statically named function
        # overriders among the possible dynamic types
        def target(t, sym=False):
            ms = self.mro('SymmetricMatrix' if sym else t)
            for c in ms:
                k = key.replace(pat, 'Symbolics::%s::' % c)
                if k in self.P.funcs:
                    return self.P.funcs[k]
            return None
        if ty is None:
            ts = {}
            for t in sorted(o.types):
                g = target(t)
                ts.setdefault(g.key if g else None, []).append(t)
            if len(ts) == 1:
                k = next(iter(ts))
                if k is None:
                    raise Unsupported('no body ' + key)
                return self.P.funcs[k]
            ks = sorted(ts, key=str)
            c = e.choose(len(ks), 'dispatch')
            e.narrow(o, ts[ks[c]])
            if ks[c] is None:
                raise Unsupported('no body ' + key)
            return self.P.funcs[ks[c]]
        if ty == 'Matrix' and o.sym is None and not o.built:
            o.sym = False
        g = target(ty, ty == 'Matrix' and bool(o.sym))
        return g or f

    def shape_ctor(self, e, vals):
        if not vals:
            return SC()
        if len(vals) == 1:
            s = ShapeV(1, vals[0], 1)
        elif len(vals) == 2:
            s = ShapeV(2, vals[0], vals[1])
        else:
            s = ShapeV(*vals)
        ok = z3.And(zi(s.nd) >= 0, zi(s.nd) <= 2, zi(s.d1) >= 1, zi(s.d2) >= 1, z3.Implies(zi(s.nd) == 0, z3.And(zi(s.d1) == 1, zi(s.d2) == 1)), z3.Implies(zi(s.nd) == 1, z3.Or(zi(s.d1) == 1, zi(s.d2) == 1)))
        if not e.decide(ok):
            raise CThrow('ShapeError')
        return s

    def construct(self, e, t, base, ctor, argn, n):
        if base in ('Matrix', 'SymmetricMatrix') and argn and strip(argn[0].ty) == 'Shape':
            s = e.ev(argn[0])
            self.fix_size(e, s)
            e.concretize(s)
        if base in ('Add', 'Mul') and argn and len(argn) == 1 and 'vector' in (argn[0].ty or '').replace('BasicPtrVec', 'vector'):
            v = e.ev(argn[0])
            if isinstance(v, Seq) and any(isinstance(x, Opq) for x in v.flat()):
                for x in v.flat():
                    if isinstance(x, Opq):
                        e.materialise(x)
                fl = v.flat()
                if any(isinstance(x, Opq) for x in fl):
                    return self.nary(e, base, v)
        return NotImplemented

    def fix_size(self, e, s):
        """explicit matrices are built for every size up to 3x3 only"""
        if e.concrete_shape(s) is not None:
            return
        self.bounded = True
        ds = [(0, 1, 1)] + MATDIMS
        d = ds[e.choose(len(ds), 'size')]
        c = e.shape_eq(s, ShapeV(*d))
        if c is False:
            raise PathEnd('size')
        e.assume(c)
        if not e.feasible():
            raise PathEnd('size')

    def nary(self, e, base, v):
        """the vector constructor of Add and Mul on a list with opaque parts"""
        self.assumed.add('%s::%s(vector): shape is the fold of the operand shapes (opaque lists)' % (base, base))
        o = Obj(e, [base], SC())
        o.built = True
        o.cls = base
        e.alloc.append(o)
        sh = SC()
        q = Q(e)
        for x in v.flat():
            if isinstance(x, Opq):
                if x.total is None:
                    raise Unsupported('opaque operands')
                s = ShapeV(*q.shp(x.total)) if x.total[0] != 'D' or x.owner is None else x.owner.shape
            else:
                s = x.shape
            c = conforms_add(e, sh, s) if base == 'Add' else conforms_mul(sh, s)
            if not e.decide(c):
                raise CThrow('ShapeError')
            sh = addshape(e, sh, s) if base == 'Add' else C.mulshape(e, sh, s)
        o.shape = sh
        o.fields['m_args'] = v.copy()
        o.fields['m_simplified'] = False
        return o

    def globalvar(self, e, key, n):
        nm = key
        t = strip(n.ty)
        if 'zero' in nm and 'Zero' in nm:
            o = e.obj(types=['Zero'], shape=SC())
            return Cell(o)
        if 'Int' in nm:
            for s, v in (('one', 1), ('minusone', -1), ('minusOne', -1), ('zero', 0), ('two', 2)):
                if s in nm.lower() or s in nm:
                    vv = v
                    if 'minus' in nm.lower():
                        vv = -1
                    o = e.obj(types=['Int'], shape=SC())
                    e.assume(o.fields['m_value'] == vv)
                    return Cell(o)
        raise Unsupported('global %s' % key)

    def cfunction(self, e, name, n):
        args = [e.ev(a) for a in n.inner[1:]]
        if name in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'fabs', 'abs', 'atan2'):
            nf = NFCtx(Q(e))
            f = nf.fn({'fabs': 'abs'}.get(name, name), tuple(('num', rnum(a)) for a in args))
            c = nf.is_num(f)
            return tz(c)
        if name == 'sqrt':
            return tz(NFCtx(Q(e)).npow(rnum(args[0]), Fr(1, 2)))
        if name == 'pow':
            return tz(NFCtx(Q(e)).npow(rnum(args[0]), rnum(args[1])))
        if name in ('min', 'max'):
            a, b = args
            if not isz(a) and not isz(b):
                return min(a, b) if name == 'min' else max(a, b)
            c = zi(a) < zi(b) if name == 'min' else zi(a) > zi(b)
            return z3.If(c, zi(a), zi(b))
        raise Unsupported('external function ' + name)

    def visit(self, e, o):
        """a visitor that keeps values (and what is a number)"""
        self.assumed.add('visitors of iterateExp leave numbers as they are')
        if o.types <= NUM:
            return o
        r = e.obj(shape=o.shape.copy())
        e.setterm(r, T(o))
        return r

    def same_key(self, e, a, b):
        return False

    def map_extract(self, e, m, k):
        inv = getattr(m, 'inv', None)
        if inv is None:
            raise Unsupported('map')
        m.items.append((k, Cell(inv(e, k))))
        return len(m.items) - 1

    def loop(self, e, n):
        return loops.loop(e, n)


# ------------------------------------------------------------------ runner
class Fail:
    """an obligation that was not discharged: either two terms that must be equal or a condition that must hold"""

    def __init__(self, name, detail, terms=None, cond=None):
        self.name, self.detail, self.terms, self.cond = name, detail, terms, cond
        self.script = None
        self.definite = False       # refuted by a concrete model
        self.case = None            # the same model as a case of the driver
        self.model = ''
        self.agree = 0              # models of the path in which both sides agree
        self.cases = []             # their cases
        self.unknown = False        # the solver gave up somewhere on this path


def arg_value(e, ty, name, con, i):
    t = strip(ty)
    if isptr(ty):
        o = e.obj(types=con.argty.get(i), name=name or 'a%d' % i)
        return o
    if t in ('unsigned long', 'size_t', 'unsigned int'):
        v = z3.Int('%s' % (name or 'n%d' % i))
        e.assume(v >= 0)
        return v
    if t == 'int':
        return z3.Int(name or 'i%d' % i)
    if t == 'double':
        return z3.Real(name or 'x%d' % i)
    if t == 'bool':
        return z3.Bool(name or 'b%d' % i)
    if t == 'Shape':
        return e.fresh_shape(name or 's%d' % i)
    if t in ALL:
        return e.obj(types=[t], name=name)
    if t == 'Basic':
        return e.obj(name=name)
    if t.startswith('std::vector'):
        raise Unsupported('vector argument')
    if t.endswith('Iterator'):
        return Rec('visitor')
    raise Unsupported('argument type ' + t)


def examine(e, skey, x):
    """look for a concrete model of the failing path in which the obligation is false"""
    try:
        m = None
        if x.terms is not None:
            st = {}
            r = refute.refute(e, *x.terms, stat=st)
            x.agree = st['agree']
            x.cases = [c for c in (refute.driver_case(e, skey, e.this, e.callvals, m) for m in st.get('models', [])[:3]) if c]
            if r:
                m, txt = r
                x.detail += '\n   in a model: ' + txt
        elif x.cond is not None:
            m = refute.refute_cond(e, x.cond)
        if m is not None:
            x.definite = True
            x.model = ', '.join('%s=%s' % (d, m.m[d]) for d in m.m.decls() if d.arity() == 0)[:600]
            x.case = refute.driver_case(e, skey, e.this, e.callvals, m)
    except Exception as ex:
        x.detail += '\n   (search for a model: %s %s)' % (type(ex).__name__, ex)


def model_text(e):
    try:
        if e.solver.check() == z3.sat:
            m = e.solver.model()
            return {str(d): str(m[d]) for d in m.decls()}
    except Exception:
        pass
    return {}


def elementwise_needed(e, o):
    return False


def compare(e, con, name, got, want, shape):
    """obligation: value got == value want; returns None or a failure text"""
    nf = NFCtx(Q(e))
    a, b = nf.nf(got), nf.nf(want)
    if nf.eq(a, b):
        return None
    # Bail-free inequality of normal forms
    return Diff('got %s\n   want %s' % (nf.show(a)[:600], nf.show(b)[:600]), (got, want))


class Diff(str):
    def __new__(cls, s, terms=None):
        o = str.__new__(cls, s)
        o.terms = terms
        return o


def matclass(e, o):
    """an explicit matrix with the same value as o"""
    o = e.rep(o)
    if o.ty() == 'Matrix':
        return o
    for x in e.mats:
        if e.rep(x) is o:
            return x
    return None


def has_matrix(e, t, depth=0):
    if depth > 12 or not isinstance(t, tuple):
        return False
    if not t or not isinstance(t[0], str):
        return any(has_matrix(e, x, depth + 1) for x in t if isinstance(x, tuple))
    if t[0] == 'obj':
        o = e.rep(t[1])
        if matclass(e, o) is not None:
            return True
        u = Q(e).unfold(o)
        return has_matrix(e, u, depth + 1) if u is not None else False
    return any(has_matrix(e, x, depth + 1) for x in t if isinstance(x, tuple))


def value_obligation(e, con, r, want):
    got = T(r) if not (r is e.this) else C.fieldterm(e, r) or T(r)
    sh = r.shape
    if has_matrix(e, got) or has_matrix(e, want):
        try:
            if compare(e, con, 'value', got, want, sh) is None:
                return None
        except Bail:
            pass
        dims = e.concrete_shape(sh)
        if dims is None:
            raise Unsupported('matrix of unknown size')
        nd, d1, d2 = dims
        if nd > 0:
            for i in range(d1):
                for j in range(d2):
                    f = compare(e, con, 'el', ('el', got, i, j), ('el', want, i, j), None)
                    if f:
                        return Diff('element (%d,%d): %s' % (i, j, f), f.terms)
            return None
    return compare(e, con, 'value', got, want, sh)


def run_path(P, ctx, key, con, script):
    f = P.funcs[key]
    e = Interp(P, script, ctx)
    e.this = None
    this = None
    fails = []
    npo = 0
    try:
        ctx.WRT = None
        ctx.SUB = None
        if f.cls and not f.static and f.kind == 'CXXMethodDecl' and (con.thisty or f.cls == 'Shape'):
            if con.thisty:
                this = e.obj(types=[con.thisty], name='this')
                this.facts['frozen'] = True
                e.this = this
            elif f.cls == 'Shape':
                this = e.fresh_shape('this')
        if con.mkthis is not None:
            this = con.mkthis(e)
        vals = [arg_value(e, p[2], p[1], con, i) for i, p in enumerate(f.params)]
        e.callvals = list(vals)
        if con.thisty and 'der()' in key:
            ctx.WRT = 't'
        elif con.thisty and '::der(' in key:
            ctx.WRT = T(vals[0])
        if '::subs(' in key and len(vals) == 2:
            ctx.SUB = (vals[0], vals[1])
            ctx.issub = True
        if con.pre is not None:
            con.pre(e, this, vals)
        if con.scope is not None:
            s = con.scope(e, this, vals)
            if s is not None:
                e.assume(s)
        if not e.feasible():
            raise PathEnd('pre')
        out = con.fn(e, this, vals)
        e.inbody = True
        if out.throws is False or out.throws is None:
            throws = False
        else:
            throws = out.throws
        # facts of the contract that must not be lost by later unification
        thrown = None
        rawcells = []
        if con.raw:
            for i, p in enumerate(f.params):
                if p[2].strip().endswith('&') and 'const' not in p[2]:
                    rawcells.append(Cell(vals[i]))
                    vals[i] = rawcells[-1]
        try:
            r = e.body(f, this, [v if not (p[2] or '').strip().endswith('&') or (p[2] or '').startswith('const') or 'const &' in (p[2] or '') else v for v, p in zip(vals, f.params)])
        except CThrow as x:
            thrown = x
            r = None
        if not e.feasible():
            raise PathEnd('infeasible')
        for q in list(e.opqs):
            e.materialise(q)
        if not e.feasible():
            raise PathEnd('infeasible')
        if thrown is not None:
            npo += 1
            c = throws
            if out.lenient is not None:
                c = z3.Or(z3bool(throws), out.lenient)
            if c is True:
                pass
            elif c is False or not e.entails(c):
                fails.append(Fail('no exception on admissible operands', 'throws %s' % thrown.cls, cond=c))
            return e, fails, npo
        if throws is not False:
            npo += 1
            if out.lenient is not None and e.decide(z3.And(throws, out.lenient)):
                return e, fails, npo
            if throws is True or not e.entails(z3.Not(throws)):
                fails.append(Fail('refused when the operands do not conform', 'returned a value where an exception is required', cond=False if throws is True else z3.Not(throws)))
                return e, fails, npo
        if out.ret == 'bool':
            npo += 1
            if isinstance(r, (LVS,)):
                r = e.rv(r)
            if not isinstance(r, bool):
                r = e.decide(r)
            ex = out.exact
            if ex is not None:
                c = (ex if r else (not ex if isinstance(ex, bool) else z3.Not(ex)))
                if c is True:
                    pass
                elif c is False or not e.entails(c):
                    fails.append(Fail('result', 'returned %s' % r, cond=c))
            if con.raw:
                npo += 1
                t = con.rawclaim(e, this, vals, r, rawcells[-1])
                if t:
                    fails.append(Fail('result', t))
            if hasattr(con, 'claim') and con.claim:
                npo += 1
                t = con.claim(e, this, vals, r)
                if t:
                    fails.append(Fail('fact', t, terms=getattr(t, 'terms', None), cond=getattr(t, 'cond', None)))
            return e, fails, npo
        if out.ret == 'shape':
            npo += 1
            c = e.shape_eq(r, out.val)
            if c is False or c is not True and not e.entails(c):
                fails.append(Fail('shape', '%s instead of %s' % (r, out.val), cond=c))
            return e, fails, npo
        if not isinstance(r, Obj):
            r = e.rv(r)
        if not isinstance(r, Obj):
            raise Unsupported('result %r' % (r,))
        npo += 1
        c = e.shape_eq(r.shape, out.shape)
        if c is False or c is not True and not e.entails(c):
            fails.append(Fail('shape of the result', '%s instead of %s' % (r.shape, out.shape), cond=c))
            return e, fails, npo
        if out.types is not None:
            npo += 1
            if not r.types <= frozenset(out.types):
                fails.append(Fail('type of the result', str(r), cond=None))
        for o in e.alloc:
            for nm, cc in C.check_invariant(e, o):
                npo += 1
                if cc is False or cc is not True and not e.entails(cc):
                    fails.append(Fail('class invariant of %s: %s' % (o.ty(), nm), str(o.shape), cond=cc))
        if out.term is not None:
            npo += 1
            t = value_obligation(e, con, r, out.term)
            if t:
                fails.append(Fail('value of the result', t, terms=t.terms))
        if con.mkthis is not None:
            for m in (this.f.values() if isinstance(this, Rec) else ()):
                for k, c in m.items:
                    npo += 1
                    t = value_obligation(e, con, c.v, T(k))
                    if t:
                        fails.append(Fail('what is remembered of an expression has its value', t, terms=t.terms))
        if con.kind == 'simp' and r is not this:
            npo += 1
            got = C.fieldterm(e, this)
            if got is not None and this.ty() not in ('Symbol', 'Jacobian'):
                t = compare(e, con, 'this', got, T(this), None)
                if t:
                    fails.append(Fail('the simplified object keeps its value', t, terms=t.terms))
        return e, fails, npo
    except PathEnd:
        return e, None, 0


class Report:
    def __init__(self, key):
        self.key = key
        self.paths = 0
        self.closed = 0
        self.obligations = 0
        self.fails = []
        self.undecided = []
        self.bounded = False
        self.smt = 0
        self.tsmt = 0
        self.time = 0
        self.used = set()
        self.inlined = set()
        self.assumed = set()
        self.status = '?'


def verify(P, skey, secs=60, maxpaths=4000, verbose=False):
    con = C.TABLE[skey]
    ctx = Ctx(P, None, con, secs)
    rep = Report(skey)
    t0 = time.time()
    key = ctx.short.get(skey)
    if key is None:
        rep.status = 'missing'
        return rep
    ctx.key = key
    ctx.coarse = skey in C.COARSE
    while True:
        todo = [[]]
        rep.fails, rep.undecided = [], []
        rep.paths = rep.closed = rep.obligations = 0
        try:
            while todo:
                if time.time() > ctx.deadline or rep.paths > maxpaths:
                    rep.undecided.append(('time', ''))
                    break
                s = todo.pop()
                rep.paths += 1
                e = None
                try:
                    e, fails, npo = run_path(P, ctx, key, con, s)
                    if fails is None:
                        rep.closed += 1
                    else:
                        rep.obligations += npo
                        for x in fails:
                            x.script = list(e.script)
                            x.unknown = e.unknown > 0
                            if sum(1 for y in rep.fails if y.definite) < 3 and time.time() < ctx.deadline + 20:
                                examine(e, skey, x)
                            x.terms = x.cond = None
                            x.detail = str(x.detail)
                            x.types = {o.name: (sorted(o.types) if len(o.types) < 4 else len(o.types), str(o.shape)) for o in e.named()}
                            rep.fails.append(x)
                    todo += e.alts
                except Restart:
                    raise
                except (Unsupported, Bail) as x:
                    tb = traceback.extract_tb(sys.exc_info()[2])
                    rep.undecided.append((type(x).__name__ + ': ' + str(x), ' <- '.join('%s:%d' % (os.path.basename(q.filename), q.lineno) for q in reversed(tb[-4:]))))
                    todo += ctx.current.alts if ctx.current else []
                if len(rep.fails) > 20:
                    break
        except Restart as x:
            if verbose:
                print('  restart', x)
            continue
        break
    rep.bounded = ctx.bounded
    rep.smt, rep.tsmt, rep.time = ctx.nsmt, ctx.tsmt, time.time() - t0
    rep.used, rep.inlined, rep.assumed = ctx.used, {short(k) for k in ctx.inlined}, ctx.assumed
    rep.status = 'failed' if any(f.definite for f in rep.fails) else 'open' if rep.fails else 'undecided' if rep.undecided else 'bounded' if rep.bounded else 'proved'
    return rep


if __name__ == '__main__':
    import pickle
    P = pickle.load(open(os.environ.get('PKL', '/tmp/P.pkl'), 'rb'))
    import fnmatch
    pats = sys.argv[1:] or ['*']
    keys = [k for k in C.TABLE if any(p in k for p in pats)]
    import multiprocessing as mp

    V = len(keys) <= 3

    def one(k):
        try:
            return verify(P, k, secs=float(os.environ.get('SECS', '60')))
        except Exception as x:
            r = Report(k)
            r.status = 'crash'
            r.undecided = [(traceback.format_exc()[:3000] if V else traceback.format_exc().strip()[-160:], '')]
            return r
    with mp.Pool(8 if len(keys) > 1 else 1) as pool:
        for r in pool.imap_unordered(one, keys):
            print('%-10s %-55s paths %d obl %d smt %d %.1fs %s' % (r.status, r.key, r.paths, r.obligations, r.smt, r.time, 'bounded' if r.bounded else ''))
            from collections import Counter
            if r.undecided:
                for (u, w), c in Counter(r.undecided).most_common(8 if V else 2):
                    print('      ?', c, u[:300 if not V else 4500], w)
            for f in r.fails[:6 if V else 1]:
                print('      X', 'REFUTED' if f.definite else 'open', f.name, '|', f.detail[:900 if V else 300], f.types if V else '', f.script, f.case if f.case and V else '', f.model if V else '')
            sys.stdout.flush()
