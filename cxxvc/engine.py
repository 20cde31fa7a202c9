"""Verification-condition generator: symbolic execution of clang's AST of the real functions.

Every function is executed on symbolic inputs constrained by its precondition; calls are
replaced by the callee's contract; loops by an invariant rule.  Paths are explored by replaying
a decision script, so the state of a path is ordinary Python state.
"""
import z3, time, sys, re
from fractions import Fraction as Fr
from sem import NFCtx, Bail, rnum, tz, isz, numf

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """infeasible path or path closed by a proof rule"""


class CThrow(Exception):
    def __init__(self, cls, msg=''):
        self.cls = cls
        self.msg = msg


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Restart(Exception):
    """a candidate invariant was refuted: explore the function again without it"""


NUM = frozenset(['Int', 'Real', 'Zero'])
SCALARS = frozenset(['Int', 'Real', 'Atan2', 'Less', 'Greater', 'Equal', 'Element', 'Scalar'])


class ShapeV:
    __slots__ = ('nd', 'd1', 'd2', 'nel')

    def __init__(self, nd, d1, d2, nel=None):
        self.nd, self.d1, self.d2 = nd, d1, d2
        self.nel = nel          # what the code stored as number of elements, None = d1*d2

    def t(self):
        return (self.nd, self.d1, self.d2)

    def copy(self):
        return ShapeV(self.nd, self.d1, self.d2, self.nel)

    def __repr__(self):
        return 'Shape%s' % (self.t(),)


SC = lambda: ShapeV(0, 1, 1)
NUMEL = z3.Function('numel', z3.IntSort(), z3.IntSort(), z3.IntSort())


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x


class Obj:
    _n = 0

    def __init__(self, e, types, shape, name=None):
        Obj._n += 1
        e.nobj += 1
        self.id = e.nobj
        self.types = frozenset(types)
        self.shape = shape
        self.fields = {}
        self.built = False          # constructed here: its value is read off its fields
        self.tparam = name
        self.name = name or 'o%d' % self.id
        self.term = None            # value term, used at the class representative
        self.mat = None
        self.sym = None             # Matrix: True/False/None = SymmetricMatrix?
        self.facts = {}
        self.args = None
        self.fieldepoch = 0
        self.root = None

    def ty(self):
        return next(iter(self.types)) if len(self.types) == 1 else None

    def index_of(self, k):
        return self.facts.get('index') is not None and any(isz(x) and str(k) in str(x) for x in self.facts['index'])

    def __repr__(self):
        return '%s:%s' % (self.name, '|'.join(sorted(self.types)) if len(self.types) < 5 else '%d types' % len(self.types))


class Opq:
    """the elements of a sequence of unknown length; total = what they add (multiply) up to"""
    _n = 0

    def __init__(self, e, n, total=None, props=(), owner=None, join=None):
        Opq._n += 1
        e.nopq = getattr(e, 'nopq', 0) + 1
        self.id = e.nopq
        self.n = n
        self.total = total
        self.props = set(props)     # universal facts about every element
        self.owner = owner
        self.join = join
        self.elems = {}
        self.conc = None            # list of Obj once the length is known
        self.kind = None
        e.opqs.append(self)

    def __repr__(self):
        return 'Opq%d(n=%s)' % (self.id, self.n)


class Seq:
    def __init__(self, segs=None):
        self.segs = segs if segs is not None else []    # Obj/value or Opq

    def copy(self):
        return Seq(list(self.segs))

    def flat(self):
        out = []
        for s in self.segs:
            if isinstance(s, Opq) and s.conc is not None:
                out += s.conc
            else:
                out.append(s)
        self.segs = out
        return out

    def __repr__(self):
        return 'Seq%s' % (self.segs,)


class Rec:
    """a plain struct / functor"""

    def __init__(self, cls, **kw):
        self.cls = cls
        self.f = dict(kw)

    def __repr__(self):
        return '%s%s' % (self.cls, self.f)


class MapV:
    def __init__(self):
        self.items = []      # (key, Cell)
        self.total = None    # opaque rest
        self.opq = None


class Cell:
    __slots__ = ('v', 'ty')

    def __init__(self, v=None, ty=None):
        self.v = v
        self.ty = ty

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


class FieldLV:
    __slots__ = ('e', 'o', 'n')

    def __init__(self, e, o, n):
        self.e, self.o, self.n = e, o, n

    def get(self):
        return self.e.getfield(self.o, self.n)

    def set(self, v):
        self.e.setfield(self.o, self.n, v)


class RecLV:
    __slots__ = ('r', 'n')

    def __init__(self, r, n):
        self.r, self.n = r, n

    def get(self):
        if isinstance(self.r, ShapeV):
            if self.n == 'm_numElem':
                return self.r.nel if self.r.nel is not None else ENG.numel(self.r)
            return {'m_ndim': self.r.nd, 'm_dim1': self.r.d1, 'm_dim2': self.r.d2}[self.n]
        return self.r.f.get(self.n)

    def set(self, v):
        if isinstance(self.r, ShapeV):
            if self.n == 'm_numElem':
                p = self.r.d1 * self.r.d2
                self.r.nel = None if (not isz(v) and not isz(p) and v == p) or (isz(v) and isz(p) and v.eq(p)) else v
                return
            setattr(self.r, {'m_ndim': 'nd', 'm_dim1': 'd1', 'm_dim2': 'd2'}[self.n], v)
        else:
            self.r.f[self.n] = v


class ElLV:
    __slots__ = ('e', 's', 'i')

    def __init__(self, e, s, i):
        self.e, self.s, self.i = e, s, i

    def get(self):
        return self.e.seq_get(self.s, self.i)

    def set(self, v):
        self.e.seq_set(self.s, self.i, v)


ENG = None
LVS = (Cell, FieldLV, RecLV, ElLV)


class It:
    """iterator / pointer into a sequence or map"""

    def __init__(self, s, i):
        self.s, self.i = s, i


class Path:
    """one symbolic execution (one script)"""
    inbody = False

    def same_symbol(self, a, b):
        """fork: the two symbols are one and the same, or different ones"""
        a, b = self.rep(a), self.rep(b)
        if a is b:
            return True
        if any({self.rep(x), self.rep(y)} == {a, b} for x, y in self.distinct):
            return False
        c = self.shape_eq(a.shape, b.shape)
        if c is not False and self.choose(2, 'same symbol') == 0:
            self.assume(c)
            if not self.feasible():
                raise PathEnd('shape')
            self.unify(a, b)
            return True
        self.distinct.append((a, b))
        return False

    def __init__(self, prog, script, ctx, timeout=30000):
        self.P = prog
        self.script = list(script)
        self.pos = 0
        self.alts = []
        self.solver = z3.Solver()
        self.distinct = []
        self.related = []
        self.solver.set('rlimit', 400000)      # deterministic limit; the timeout is a safety net only
        self.solver.set('timeout', timeout)
        self.unknown = 0
        self.ctx = ctx               # function-level shared state (candidate invariants, obligations)
        self.nobj = 0
        self.nsk = 0
        self.ent = {}
        self.epoch = 0
        self.depth = 0
        self.trace = []
        self.globals = {}
        self.shapes = {}
        self.alloc = []
        self.maskcache = {}
        self.elidx = None
        self.linidx = {}
        self.stack = []
        self.consts = {}
        self.nforks = 0
        self.nmut = 0
        self.opqs = []
        self.objs = []
        self.mats = []
        self.ints = []
        self.defs = []
        self.models = []
        self.floors = []
        self.eqs = []
        ctx.current = self
        global ENG
        ENG = self

    # ---------------------------------------------------------------- solver
    def assume(self, c):
        if c is True or c is None:
            return
        if c is False:
            raise PathEnd('false')
        if isz(c):
            c = self.nofloor(c)
        self.solver.add(c)
        self.ent.clear()
        if isz(c):
            if self.models:
                self.models = [m for m in self.models if z3.is_true(m.eval(c, model_completion=True))]
            self.learn(c)

    def nofloor(self, c):
        """integrality by an explicit floor: floor(v) is a fresh integer k with k <= v < k+1"""
        found = []

        def walk(t):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            for x in t.children():
                walk(x)
            if t.decl().kind() in (z3.Z3_OP_IS_INT, z3.Z3_OP_TO_INT):
                found.append(t)
        seen = set()
        walk(c)
        if not found:
            return c
        sub = []
        for t in found:
            v = z3.simplify(t.arg(0))
            k = self.floor(v)
            sub.append((t, z3.ToReal(k) == v if t.decl().kind() == z3.Z3_OP_IS_INT else k))
        return z3.substitute(c, *sub)

    def floor(self, v):
        if z3.is_to_real(v):
            return v.arg(0)
        if z3.is_rational_value(v):
            return z3.IntVal(v.numerator_as_long() // v.denominator_as_long())
        for x, k in self.floors:
            if x.eq(v):
                return k
        k = z3.Int('floor%d' % len(self.floors))
        self.floors.append((v, k))
        d = z3.And(z3.ToReal(k) <= v, v < z3.ToReal(k) + 1)
        if z3.is_mul(v) or z3.is_add(v):        # sums and products of integers are integers
            fs = [(x, self.floor(z3.simplify(x))) for x in v.children() if not z3.is_rational_value(x) or not x.is_int()]
            if not any(z3.is_rational_value(x) for x, _ in fs):
                d = z3.And(d, z3.Implies(z3.And([z3.ToReal(f) == x for x, f in fs]), z3.ToReal(k) == v))
        self.solver.add(d)
        self.models = [m for m in self.models if z3.is_true(m.eval(d, model_completion=True))]
        return k

    def learn(self, c):
        """remember equations  constant = term  between reals for rewriting queries"""
        if z3.is_and(c):
            for x in c.children():
                self.learn(x)
            return
        if not z3.is_eq(c) or not z3.is_real(c.arg(0)):
            return
        a, b = c.arg(0), c.arg(1)
        for v, t in ((a, b), (b, a)):
            if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                t = z3.simplify(self.rewrite(t))
                if not any(x.eq(v) for x in consts(t)) and not any(x.eq(v) for x, _ in self.defs):
                    self.defs.append((v, t))
                    return

    def rewrite(self, t):
        for _ in range(3):
            u = z3.substitute(t, *self.defs) if self.defs else t
            if u.eq(t):
                break
            t = u
        return t

    def check(self, *cs):
        self.ctx.nsmt += 1
        t = time.time()
        cs = [self.nofloor(c) if isz(c) else c for c in cs]
        s = self.solver
        r = s.check(*cs)
        if r == z3.unknown:
            # the search depends on luck: other seeds, then a larger budget
            for seed, lim in ((1, 400000), (3, 400000), (4, 400000), (6, 3000000)):
                s = z3.Solver()
                s.set('random_seed', seed)
                s.set('rlimit', lim)
                s.set('timeout', 30000)
                s.add(self.solver.assertions())
                s.add(*cs)
                r = s.check()
                if r != z3.unknown:
                    break
        if r == z3.unknown:
            self.unknown += 1
        elif r == z3.sat:
            self.models = [s.model()] + self.models[:3]
        if SLOW and time.time() - t > SLOW:
            print('SLOW', round(time.time() - t, 2), r, cs)
            if SLOW > 1:
                print(self.solver.sexpr())
        self.ctx.tsmt += time.time() - t
        return r

    def entails(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if self.defs and not z3.is_true(c) and not z3.is_false(c):
            if z3.is_true(z3.simplify(self.rewrite(c), som=True)):
                return True
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k in self.ent:
            return self.ent[k][0]
        for m in self.models:
            if z3.is_false(m.eval(c, model_completion=True)):
                self.ent[k] = (False, c)
                return False
        r = self.check(z3.Not(c)) == z3.unsat
        self.ent[k] = (r, c)
        return r

    def feasible(self, c=True):
        if isz(c):
            for m in self.models:
                if z3.is_true(m.eval(c, model_completion=True)):
                    return True
        elif self.models:
            return True
        return self.check(c) != z3.unsat

    def decide(self, c, tag='if'):
        if isinstance(c, bool):
            return c
        if isinstance(c, (int, Fr)):
            return bool(c)
        if c is None:
            return False
        if not z3.is_bool(c):
            c = c != 0
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.script):
            v = self.script[self.pos]
            self.pos += 1
            if v in (2, 3):
                self.nforks += 1
                v -= 2
        else:
            if time.time() > self.ctx.deadline:
                raise Unsupported('time')
            ev = [m.eval(c, model_completion=True) for m in self.models]
            t = z3.sat if any(z3.is_true(x) for x in ev) else self.check(c)
            f = (z3.sat if any(z3.is_false(x) for x in ev) else self.check(z3.Not(c))) if t != z3.unsat else z3.sat
            if t == z3.unsat:
                v = 0
            elif f == z3.unsat:
                v = 1
            else:
                v = 1
                self.alts.append(self.script + [2])
                self.nforks += 1
                self.script.append(3)
                self.pos += 1
                self.assume(c)
                return True
            self.script.append(v)
            self.pos += 1
        self.assume(c if v else z3.Not(c))
        return bool(v)

    def choose(self, n, tag=''):
        if self.pos < len(self.script):
            v = self.script[self.pos]
        else:
            v = 0
            for k in range(1, n):
                self.alts.append(self.script + [k])
            self.script.append(0)
        self.pos += 1
        return v

    def skolem(self, n='k', sort='int'):
        self.nsk += 1
        return z3.Int('%s!%d' % (n, self.nsk)) if sort == 'int' else z3.Real('%s!%d' % (n, self.nsk))

    # ---------------------------------------------------------------- shapes
    def fresh_shape(self, name):
        s = ShapeV(z3.Int(name + '.nd'), z3.Int(name + '.d1'), z3.Int(name + '.d2'))
        self.assume_shape(s)
        return s

    def assume_shape(self, s):
        nd, a, b = zi(s.nd), zi(s.d1), zi(s.d2)
        self.assume(z3.And(nd >= 0, nd <= 2, a >= 1, b >= 1,
                           z3.Implies(nd == 0, z3.And(a == 1, b == 1)),
                           z3.Implies(nd == 1, z3.Or(a == 1, b == 1)),
                           z3.Implies(nd > 0, z3.Or(a > 1, b > 1)), z3.Implies(nd == 2, z3.And(a > 1, b > 1))))

    def shape_eq(self, a, b):
        c = [x == y for x, y in zip(a.t(), b.t()) if not (x is y)]
        c = [x for x in c if x is not True]
        if any(x is False for x in c):
            return False
        if not c:
            return True
        return z3.And(*c)

    def shape_ite(self, c, a, b):
        f = lambda x, y: x if (not isz(x) and not isz(y) and x == y) or (isz(x) and isz(y) and x.eq(y)) else z3.If(c, zi(x), zi(y))
        return ShapeV(f(a.nd, b.nd), f(a.d1, b.d1), f(a.d2, b.d2))

    def numel(self, s):
        if not isz(s.d1) and not isz(s.d2):
            return s.d1 * s.d2
        cs = self.concrete_shape(s)
        if cs is not None:
            return cs[1] * cs[2]
        a, b = zi(s.d1), zi(s.d2)
        if self.entails(a == 1):
            return s.d2
        if self.entails(b == 1):
            return s.d1
        n = NUMEL(a, b)
        self.assume(z3.And(n >= 1, n >= a, n >= b, (n == 1) == z3.And(a == 1, b == 1), z3.Implies(a == 1, n == b), z3.Implies(b == 1, n == a)))
        return n

    # ---------------------------------------------------------------- objects
    def obj(self, types=None, shape=None, name=None, term=None):
        o = Obj(self, types or self.ctx.domain, shape, name)
        self.objs.append(o)
        if o.shape is None:
            o.shape = self.fresh_shape('s%d' % o.id)
        o.term = term
        if len(o.types) == 1:
            self.narrowed(o)
        return o

    def named(self):
        return self.objs

    def concrete_shape(self, s):
        out = []
        for x in s.t():
            if not isz(x):
                out.append(x)
                continue
            for c in (0, 1, 2, 3):
                if self.entails(x == c):
                    out.append(c)
                    break
            else:
                return None
        return tuple(out)

    def concretize(self, s):
        c = self.concrete_shape(s)
        if c is not None:
            s.nd, s.d1, s.d2 = c

    def rep(self, o):
        while o.root is not None:
            o = o.root
        return o

    def lookup_alloc(self, i):
        return self.alloc[i] if i < len(self.alloc) else None

    def int_of(self, v):
        v = rnum(v)
        if isinstance(v, Fr):
            return z3.IntVal(v.numerator) if v.denominator == 1 else None
        if z3.is_to_real(v):
            return v.arg(0)
        for x, k in self.ints:
            if x.eq(v):
                return k
        for x, k in self.ints:
            if self.entails(x == v):
                return k
        if z3.is_add(v) or z3.is_mul(v):
            ks = [self.int_of(c) for c in v.children()]
            if all(k is not None for k in ks):
                r = ks[0]
                for k in ks[1:]:
                    r = r + k if z3.is_add(v) else r * k
                return r
        return None

    def classterm(self, o):
        return self.rep(o).term

    def setterm(self, o, t):
        """o's value is t; combine with what is already known"""
        r = self.rep(o)
        while r.term is not None and r.term[0] == 'obj' and not r.built:
            r = self.rep(r.term[1])
        if t[0] == 'obj' and (r.term is None or self.rep(t[1]).term is None):
            self.unify(o, t[1])
            return
        if r.term is None:
            if r.built:
                self.solve(self.valterm(r), t)
                return
            if not self.occurs(r, t):
                r.term = t
            else:
                self.eqs.append((('obj', r), t))
            return
        old = r.term
        if old == t:
            return
        if t[0] in ('num', 'zero') and old[0] not in ('num', 'zero'):
            r.term = t
            self.solve(old, t)
        else:
            self.solve(old, t)

    def occurs(self, o, t):
        if isinstance(t, tuple):
            return any(self.occurs(o, x) for x in t)
        if isinstance(t, Obj):
            x = self.rep(t)
            if x is o:
                return True
            if x.term is not None:
                return self.occurs(o, x.term)
            return False
        return False

    def solve(self, a, b):
        """use the equation a == b where it determines something"""
        self.eqs.append((a, b))
        if a[0] == 'neg' and a[1][0] == 'obj' and b[0] in ('eye', 'add'):
            o = self.rep(a[1][1])
            if o.term is None and not o.built and not self.occurs(o, b):
                o.term = ('neg', b)
                return
        try:
            n = NFCtx(Q(self))
            fa, fb = n.nf(a), n.nf(b)
            d = n.add(fa, n.neg(fb))
        except (Bail, Unsupported):
            return
        if not d:
            return
        c = n.is_num(d)
        if c is not None:
            self.assume(tz(c) == 0)
            return
        if len(d) == 1:
            # a vector or matrix that vanishes
            ((m, ch), v), = d.items()
            one = lambda m, ch: not m and len(ch) == 1 and isinstance(ch[0][1], Fr) and ch[0][1] == 1
            if one(m, ch):
                k, pl = n.atoms[ch[0][0]]
                if k == 'T':
                    k, pl = n.atoms[pl[0]]
                if k == 'skew' and len(pl[0]) == 1:
                    ((m, ch), v), = pl[0].items()
                    if one(m, ch):
                        k, pl = n.atoms[ch[0][0]]
                if k == 'obj':
                    o = self.rep(pl[0])
                    if not o.built and o.term is None:
                        o.term = ('zero', o.shape.t())
                    return
        # a single unknown object with numeric coefficient, rest numeric
        objs = [(k, v) for k, v in d.items() if k != ((), ())]
        if len(objs) == 1:
            (m, ch), v = objs[0]
            if not ch and len(m) == 1 and isinstance(m[0][1], Fr) and m[0][1] == 1 and n.atoms[m[0][0]][0] == 'obj' and isinstance(v, Fr):
                o = n.atoms[m[0][0]][1][0]
                rest = d.get(((), ()), Fr(0))
                if not self.rep(o).built and self.rep(o).term is None:
                    self.rep(o).term = ('num', rnum(tz(rest) * tz(Fr(-1) / v)))
        elif len(objs) == 2 and ((), ()) not in d:
            # x = +-y
            for (k, v), (k2, v2) in (objs, objs[::-1]):
                (m, ch) = k
                if not ch and len(m) == 1 and isinstance(m[0][1], Fr) and m[0][1] == 1 and n.atoms[m[0][0]][0] == 'obj' and v in (1, -1) and v2 in (1, -1):
                    (m2, ch2) = k2
                    if not ch2 and len(m2) == 1 and isinstance(m2[0][1], Fr) and m2[0][1] == 1 and n.atoms[m2[0][0]][0] == 'obj':
                        o = self.rep(n.atoms[m[0][0]][1][0])
                        o2 = self.rep(n.atoms[m2[0][0]][1][0])
                        if not o.built and o.term is None:
                            t = ('obj', o2)
                            o.term = ('neg', t) if v == v2 else t
                            return

    def unify(self, a, b):
        """same value"""
        ra, rb = self.rep(a), self.rep(b)
        if ra is rb:
            return
        if ra.built and rb.built:
            self.solve(self.valterm(ra), self.valterm(rb))
            return
        if rb.built:
            ra, rb = rb, ra
        t = rb.term
        if ra.term is None and not ra.built and t is not None and self.occurs(ra, t):
            self.eqs.append((('obj', ra), t))
            return
        rb.root = ra
        self.ctx.unified(self, ra)
        if t is not None:
            rb.term = None
            if ra.built:
                self.solve(self.valterm(ra), t)
            else:
                self.setterm(ra, t)

    def narrow(self, o, keep):
        keep = o.types & frozenset(keep)
        if not keep:
            raise PathEnd('type')
        if keep == o.types:
            return
        o.types = keep
        if len(keep) == 1:
            self.narrowed(o)
        elif keep <= SCALARS and not o.built:
            self.ctx.scalarinv(self, o)

    def istype(self, o, names):
        """fork on the dynamic type"""
        names = frozenset(names)
        y = o.types & names
        n = o.types - names
        if not n:
            return True
        if not y:
            return False
        # feasibility by shape facts is left to later solver calls
        v = self.choose(2, 'type')
        self.narrow(o, y if v == 0 else n)
        if v == 0:
            if len(y) == 1 and not self.feasible():
                raise PathEnd('type')
        return v == 0

    def narrowed(self, o):
        """the type of a symbolic object became known: its class invariant holds"""
        if o.built:
            return
        inv = self.ctx.invariant.get(o.ty())
        if inv:
            inv(self, o)

    def T(self, o):
        return ('obj', o)

    def valterm(self, o):
        return self.ctx.valterm(self, o)

    def number(self, o):
        """numeric value of an Int/Real/Zero object"""
        t = o.ty()
        if t == 'Zero':
            return Fr(0)
        if t in ('Int', 'Real'):
            v = self.getfield(o, 'm_value')
            return rnum(v)
        raise Unsupported('number of ' + str(o))

    def getfield(self, o, n):
        if isinstance(o, (ShapeV, Rec)):
            return RecLV(o, n).get()
        if n == 'm_type':
            t = o.ty()
            return TypeTag(o) if t is None else self.P.enums['Type_' + t]
        if n == 'm_kind' and o.types == {'Symbol'} and not o.built:
            return self.rep(o).facts.setdefault('kind', z3.Int('kind%d' % o.id))
        if n == 'm_name' and o.types == {'Symbol'} and not o.built:
            return NameTag(o)
        if n == 'm_shape':
            return o.shape
        if o.built or n in ('m_hash', 'm_parents', 'm_refCount', 'm_simplified'):
            if n in o.fields:
                return o.fields[n]
            if n == 'm_simplified':
                return o.fields.setdefault(n, z3.Bool('simp%d' % o.id))
            return o.fields.get(n)
        if n in o.fields:
            if o.fieldepoch < self.epoch and n in ('m_arg', 'm_arg1', 'm_arg2', 'm_args') and not o.facts.get('frozen'):
                self.refresh(o)
            return o.fields[n]
        if n in ('m_arg', 'm_arg1', 'm_arg2', 'm_args') and 1 < len(o.types) <= 16 and not o.built:
            ts = sorted(o.types)
            self.narrow(o, [ts[self.choose(len(ts), 'class')]])
            if n in o.fields:
                return o.fields[n]
        raise Unsupported('field %s of %r' % (n, o))

    def refresh(self, o):
        """simplify() calls may have restructured o below the surface: new argument objects, same value"""
        o.fieldepoch = self.epoch
        if o.ty() in ('Element', 'Unknown'):
            return
        term = self.rep(o).term
        self.narrowed(o)

    def setfield(self, o, n, v):
        if isinstance(o, (ShapeV, Rec)):
            return RecLV(o, n).set(v)
        if n == 'm_shape':
            o.shape = v.copy()
            if o.built and o.ty() == 'Matrix':
                self.concretize(o.shape)
            return
        o.fields[n] = v

    # ---------------------------------------------------------------- sequences
    def seq_len(self, s):
        k = 0
        sym = []
        for x in s.flat():
            if isinstance(x, Opq):
                sym.append(x.n)
            else:
                k += 1
        r = k
        for x in sym:
            r = r + x
        return r

    def materialise(self, q):
        """if the length of an opaque segment is a constant on this path, give its elements names"""
        if q.conc is not None:
            return True
        for c in range(6):
            if self.entails(q.n == c):
                q.conc = [self.opq_elem(q, i) for i in range(c)]
                if self.ctx.opq_link:
                    self.ctx.opq_link(self, q)
                return True
        return False

    def opq_elem(self, q, i):
        key = str(z3.simplify(zi(i))) if isz(i) or isinstance(i, int) else str(i)
        if key in q.elems:
            return q.elems[key]
        for k, (ix, o) in getattr(q, 'ix', {}).items():
            if self.entails(zi(ix) == zi(i)):
                return o
        o = self.obj(name='%s[%s]' % (q.owner.name if q.owner is not None else 'q%d' % q.id, key))
        o.facts['elem'] = (q, i)
        q.elems[key] = o
        q.ix = getattr(q, 'ix', {})
        q.ix[key] = (i, o)
        self.ctx.opq_props(self, q, o, i)
        return o

    def seq_get(self, s, i):
        fl = s.flat()
        off = 0
        for x in list(fl):
            if isinstance(x, Opq):
                if len(fl) == 1:
                    if not isz(i) and self.materialise(x):
                        return self.seq_get(s, i)
                    return self.opq_elem(x, i)
                if self.materialise(x):
                    return self.seq_get(s, i)
                d = z3.simplify(zi(i) - zi(off))
                if self.decide(z3.And(d >= 0, d < x.n)):
                    return self.opq_elem(x, d)
                off = off + x.n
            else:
                if not isz(i) and not isz(off):
                    if i == off:
                        return x
                elif self.decide(zi(i) == zi(off)):
                    return x
                off = off + 1
        raise Unsupported('index out of range')

    def seq_set(self, s, i, v):
        fl = s.flat()
        if len(fl) == 1 and isinstance(fl[0], Opq):
            if isz(i) or not self.materialise(fl[0]):
                q = fl[0]
                if not isz(i) or z3.is_int_value(z3.simplify(i)):
                    for c in (1, 2, 3):
                        if self.decide(q.n == c):
                            if self.materialise(q):
                                return self.seq_set(s, i, v)
                    self.ctx.bounded = True
                    raise PathEnd('length of a list')
                pre, suf = loops().split(self, q, i)
                s.segs = [pre, v, suf]
                return
            return self.seq_set(s, i, v)
        if any(isinstance(x, Opq) for x in fl) or isz(i):
            raise Unsupported('store into symbolic sequence')
        if i >= len(fl):
            raise Unsupported('store out of range')
        s.segs[i] = v


class NameTag:
    """name of a symbol: equal names mean the same symbol (names are unique, the graph sees to that)"""

    def __init__(self, o):
        self.o = o


class TypeTag:
    """the m_type of an object whose type is not known yet"""

    def __init__(self, o):
        self.o = o


def consts(t, seen=None):
    seen = set() if seen is None else seen
    if t.get_id() in seen:
        return []
    seen.add(t.get_id())
    if z3.is_const(t):
        return [t] if t.decl().kind() == z3.Z3_OP_UNINTERPRETED else []
    return [y for x in t.children() for y in consts(x, seen)]


def loops():
    import loops as m
    return m


SLOW = float(__import__('os').environ.get('SLOW', '0'))


class Q:
    """query interface of the normaliser"""

    def __init__(self, e):
        self.e = e
        self.shc = {}

    def entails(self, c):
        return self.e.entails(c)

    def decide(self, c):
        return self.e.decide(c)

    def conc(self, n):
        if isz(n):
            for c in (1, 2, 3):
                if self.e.entails(n == c):
                    return c
        return n

    def int_of(self, v):
        """integer term equal to the real term v, if one is known"""
        return self.e.int_of(v)

    def rep(self, o):
        return self.e.rep(o)

    def unfold(self, o):
        if o.built:
            return self.e.valterm(o)
        return o.term

    def shp(self, t):
        k = t[0]
        e = self.e
        if k == 'obj':
            return t[1].shape.t()
        if k in ('num', 'cmp', 'el', 'sca'):
            return (0, 1, 1)
        if k in ('zero', 'eye'):
            return t[1]
        if k == 'add':
            s = (0, 1, 1)
            for p in t[1]:
                a = self.shp(p)
                if not e.decide(a[0] == 0):
                    return a
            return s
        if k in ('neg', 'sub', 'D', 'inv', 'pow'):
            return self.shp(t[1])
        if k == 'mul':
            a, b = self.shp(t[1]), self.shp(t[2])
            if e.decide(a[0] == 0):
                return b
            if e.decide(b[0] == 0):
                return a
            return self.e.ctx.mulshape(e, ShapeV(*a), ShapeV(*b)).t()
        if k == 'fn':
            return self.shp(t[2][0])
        if k == 'T':
            a = self.shp(t[1])
            return (a[0], a[2], a[1])
        if k == 'ifc':
            return self.shp(t[2])
        if k == 'skew':
            return (2, 3, 3)
        if k == 'jac':
            a, b = self.shp(t[1]), self.shp(t[2])
            return (2, a[1] * a[2], b[1] * b[2])
        if k == 'sumk':
            return self.shp(t[1])
        if k == 'shaped':
            return t[2]
        if k == 'mat':
            return t[1].o.shape.t()
        raise Bail('shape of ' + k)

    def elem(self, o, i, j):
        m = self.e.ctx.matclass(self.e, o)
        if m is not None:
            return ('obj', self.e.ctx.matget(self.e, m, i, j))
        return None

    def matvalue(self, m):
        """a term with the value of an explicit matrix, when one is known as a whole"""
        o = m.o
        p = o.facts.get('power')
        if p is not None:
            fl = o.fields['m_args'].flat()
            if len(fl) == len(p[0]) and all(a is b for a, b in zip(fl, p[0])):
                return p[1]
            return None
        if o.built:
            b = loops().twin(self.e, o)
            if b is not None:
                return ('obj', b)
        return None

    def matel(self, m, i, j):
        return ('obj', self.e.ctx.matget(self.e, m.o, i, j))

    def wants_elementwise(self, t):
        return bool(self.e.ctx.elementwise)

    def skolem(self, n):
        return self.e.skolem(n)

    def constant(self, o, wrt):
        return self.e.ctx.constant(self.e, o, wrt)

    def subst_obj(self, o):
        """value of an object after the substitution, where that is known"""
        e = self.e
        if e.ctx.SUB is None:
            raise Bail('sub')
        old, new = e.ctx.SUB
        o = e.rep(o)
        if o is e.rep(old):
            return ('obj', new)
        if o.types <= NUM:
            return ('obj', o)
        if any({e.rep(x), e.rep(y)} == {o, e.rep(old)} for x, y in e.distinct):
            return ('obj', o)
        return None

    def submap(self, t):
        """substitution goes through every operation"""
        s = lambda x: ('sub', x)
        k = t[0]
        if k == 'add':
            return ('add', tuple(s(x) for x in t[1]))
        if k in ('neg', 'inv', 'T', 'skew', 'sca'):
            return (k, s(t[1]))
        if k == 'mul':
            return ('mul', s(t[1]), s(t[2]))
        if k == 'pow':
            return ('pow', s(t[1]), t[2])
        if k == 'fn':
            return ('fn', t[1], tuple(s(x) for x in t[2]))
        if k == 'ifc':
            return ('ifc', s(t[1]), s(t[2]), s(t[3]))
        if k == 'cmp':
            return ('cmp', t[1], s(t[2]), s(t[3]))
        if k == 'el':
            return ('el', s(t[1]), t[2], t[3])
        if k == 'D' and t[2] == 't':
            return ('D', s(t[1]), 't')
        raise Bail('sub ' + k)
