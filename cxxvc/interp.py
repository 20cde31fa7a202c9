"""Interpreter of clang AST nodes over symbolic values (see engine.py)."""
import z3
from fractions import Fraction as Fr
from engine import *
import engine

LIN = z3.Function('lin', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
POWC = numf('pow', 2)


def strip(ty):
    if not ty:
        return ''
    t = ty.replace('const ', '').replace('&', '').strip()
    t = t.replace('Symbolics::', '')
    return t


def isptr(ty):
    t = strip(ty)
    return 'intrusive_ptr<' in t and not t.startswith('std::') or t in ('BasicPtr', 'ConstBasicPtr')


class Str:
    """an opaque string"""
    pass


class MatC:
    """content of a matrix under construction: writes over a base"""

    def __init__(self, base, writes=None, count=None):
        self.base = base            # 'zero' | 'opaque' | ('copy', Obj/MatC snapshot) | 'empty'
        self.writes = writes or []  # (i, j, obj, generic skolems)
        self.count = count          # number of elements appended so far (None = complete)
        self.reads = []
        self.watch = 0


class Interp(Path):

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.frames = []
        self.generic = []           # skolems of loop variables (generic iterations): [var, bound, instantiated]

    # ------------------------------------------------------------ values
    def rv(self, v):
        while isinstance(v, LVS):
            v = v.get()
        return v

    def ev(self, n):
        return self.rv(self.eval(n))

    def copyval(self, v):
        if isinstance(v, ShapeV):
            return v.copy()
        if isinstance(v, Seq):
            return v.copy()
        if isinstance(v, Rec):
            return Rec(v.cls, **v.f)
        if isinstance(v, MapV):
            m = MapV()
            m.items = list(v.items)
            m.opq = v.opq
            return m
        if isinstance(v, It):
            return It(v.s, v.i)
        return v

    def unsup(self, n, why=''):
        raise Unsupported('%s %s %s line %s %s' % (n.k, n.name or '', n.op or '', n.line, why))

    def eval(self, n):
        m = getattr(self, 'e_' + n.k, None)
        if m is None:
            self.unsup(n)
        return m(n)

    def pass1(self, n):
        return self.eval(n.inner[0])

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = e_MaterializeTemporaryExpr = e_ConstantExpr = e_SubstNonTypeTemplateParmExpr = pass1

    def e_IntegerLiteral(self, n):
        return int(n.val)

    def e_CXXBoolLiteralExpr(self, n):
        return bool(n.val) if isinstance(n.val, bool) else n.val == 'true'

    def e_FloatingLiteral(self, n):
        return Fr(str(n.val))

    def e_StringLiteral(self, n):
        return n.val

    def e_CharacterLiteral(self, n):
        return n.val

    def e_GNUNullExpr(self, n):
        return None

    e_CXXNullPtrLiteralExpr = e_GNUNullExpr

    def e_CXXDefaultArgExpr(self, n):
        return ('default',)

    def e_CXXThisExpr(self, n):
        return self.frames[-1]['this']

    def e_UnaryExprOrTypeTraitExpr(self, n):
        return 8

    def e_ImplicitCastExpr(self, n):
        ck = n.ck
        v = self.eval(n.inner[0])
        if ck == 'LValueToRValue':
            return self.copyval(self.rv(v))
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            v = self.rv(v)
            return v != 0 if not isinstance(v, bool) else v
        if ck == 'PointerToBoolean':
            return self.rv(v) is not None
        if ck == 'NullToPointer':
            return None
        if ck == 'IntegralToFloating':
            v = self.rv(v)
            if isinstance(v, bool):
                return Fr(int(v))
            if isz(v) and z3.is_bool(v):
                return z3.If(v, z3.RealVal(1), z3.RealVal(0))
            return z3.ToReal(v) if isz(v) else Fr(v)
        if ck == 'FloatingToIntegral':
            v = self.rv(v)
            return self.trunc(v)
        if ck == 'IntegralCast':
            v = self.rv(v)
            if isinstance(v, bool):
                return int(v)
            if isz(v) and z3.is_bool(v):
                return z3.If(v, 1, 0)
            return v
        return v

    def trunc(self, v):
        if isinstance(v, TypeTag):
            return v
        if not isz(v):
            return int(v)
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

    e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = e_ImplicitCastExpr

    def e_CXXDynamicCastExpr(self, n):
        v = self.rv(self.eval(n.inner[0]))
        t = strip(n.ty).replace('*', '').strip()
        ref = not (n.ty or '').strip().endswith('*')
        if v is None:
            return None
        if not isinstance(v, Obj):
            self.unsup(n)
        if t in ('Basic',):
            return v
        if t == 'SymmetricMatrix':
            if not self.istype(v, ['Matrix']):
                return None
            if v.sym is None:
                v.sym = self.choose(2) == 1
            return v if v.sym else None
        ok = self.istype(v, self.ctx.subtypes(t))
        if ok:
            return v
        if ref:
            raise CThrow('bad_cast')
        return None

    # ------------------------------------------------------------ names
    def e_DeclRefExpr(self, n):
        id, name, kind = n.ref
        if kind == 'EnumConstantDecl':
            return self.P.enums[name]
        fr = self.frames[-1]
        if id in fr['vars']:
            return fr['vars'][id]
        if kind in ('VarDecl',):
            d = fr['tu'].vars.get(id)
            key = d or name
            if key not in self.globals:
                self.globals[key] = self.ctx.globalvar(self, key, n)
            return self.globals[key]
        if kind in ('FunctionDecl', 'CXXMethodDecl'):
            return ('fn', id, name)
        self.unsup(n)

    def func_of(self, id):
        tu = self.frames[-1]['tu']
        f = tu.funcs.get(id)
        if f is None:
            return None
        return f

    def e_MemberExpr(self, n):
        base = self.eval(n.inner[0])
        b = self.rv(base)
        if n.ty == '<bound member function type>':
            return ('bound', b, n, base)
        if isinstance(b, (Obj, Rec, ShapeV)):
            return FieldLV(self, b, n.name)
        if isinstance(b, It):
            # map iterator: first / second
            k, c = b.s.items[b.i] if isinstance(b.s, MapV) else (None, None)
            return Cell(k) if n.name == 'first' else c
        if isinstance(b, tuple) and b and b[0] == 'pair':
            return b[1] if n.name == 'first' else b[2]
        # static member through an object
        if n.ref and n.ref[2] == 'member':
            d = self.frames[-1]['tu'].vars.get(n.ref[0])
            if d:
                if d not in self.globals:
                    self.globals[d] = self.ctx.globalvar(self, d, n)
                return self.globals[d]
        self.unsup(n, repr(b))

    # ------------------------------------------------------------ operators
    def e_UnaryOperator(self, n):
        op = n.op
        v = self.eval(n.inner[0])
        if op in ('++', '--'):
            old = self.rv(v)
            new = old + (1 if op == '++' else -1)
            v.set(new)
            return old if n.x and n.x.get('isPostfix') else v
        if op == '&':
            return self.rv(v) if isinstance(self.rv(v), (Obj, Rec)) else v
        if op == '*':
            return v
        v = self.rv(v)
        if op == '!':
            if isinstance(v, TypeTag):
                self.unsup(n)
            if not isz(v):
                return not v
            return z3.Not(v) if z3.is_bool(v) else v == 0
        if op == '-':
            return -v
        if op == '+':
            return v
        self.unsup(n)

    def cmp_type(self, op, a, b):
        """comparison with an unknown m_type"""
        if isinstance(b, TypeTag) and not isinstance(a, TypeTag):
            a, b = b, a
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if isinstance(b, TypeTag):
            # two unknown types: equal, or fork on every class
            if a.o is b.o:
                return op == '=='
            if op in ('==', '!='):
                common = a.o.types & b.o.types
                eq = bool(common) and self.choose(2, 'types') == 0
                if eq:
                    if len(common) == 1:
                        self.narrow(a.o, common)
                        self.narrow(b.o, common)
                    else:
                        ts = sorted(common)
                        c = ts[self.choose(len(ts), 'ty')]
                        self.narrow(a.o, [c])
                        self.narrow(b.o, [c])
                return eq if op == '==' else not eq
            raise Unsupported('type order')
        if not isinstance(b, int):
            raise Unsupported('type compare')
        nm = self.P.enumval.get(b)
        nm = nm[5:] if nm else None
        if op in ('==', '!='):
            r = self.istype(a.o, [nm])
            return r if op == '==' else not r
        num = lambda t: self.P.enums['Type_' + t]
        test = {'<': lambda t: num(t) < b, '>': lambda t: num(t) > b, '<=': lambda t: num(t) <= b, '>=': lambda t: num(t) >= b}[op]
        return self.istype(a.o, [t for t in a.o.types if test(t)])

    def e_BinaryOperator(self, n):
        op = n.op
        if op == '&&':
            return self.truth(n.inner[0]) and self.truth(n.inner[1])
        if op == '||':
            return self.truth(n.inner[0]) or self.truth(n.inner[1])
        if op == ',':
            self.eval(n.inner[0])
            return self.eval(n.inner[1])
        if op == '=':
            l = self.eval(n.inner[0])
            r = self.copyval(self.ev(n.inner[1]))
            l.set(r)
            return l
        a, b = self.ev(n.inner[0]), self.ev(n.inner[1])
        return self.binop(op, a, b, n)

    def binop(self, op, a, b, n):
        if isinstance(a, TypeTag) or isinstance(b, TypeTag):
            return self.cmp_type(op, a, b)
        if isinstance(a, LVS) or isinstance(b, LVS):
            a, b = self.rv(a), self.rv(b)
        if isinstance(a, Obj) or isinstance(b, Obj) or a is None or b is None:
            if op == '==':
                return a is b
            if op == '!=':
                return a is not b
            self.unsup(n)
        if isinstance(a, bool) and op in '+-*/':
            a = int(a)
        if isinstance(b, bool) and op in '+-*/':
            b = int(b)
        if isz(a) and z3.is_bool(a) and (not isz(b) and not isinstance(b, bool) or isz(b) and not z3.is_bool(b)):
            a = z3.If(a, 1, 0)
        if isz(b) and z3.is_bool(b) and (not isz(a) and not isinstance(a, bool) or isz(a) and not z3.is_bool(a)):
            b = z3.If(b, 1, 0)
        if isz(a) and z3.is_bool(a) and op in ('<', '>', '<=', '>=', '+', '-', '*'):
            a = z3.If(a, 1, 0)
        if isz(b) and z3.is_bool(b) and op in ('<', '>', '<=', '>=', '+', '-', '*'):
            b = z3.If(b, 1, 0)
        if isinstance(a, Fr) and isz(b) and z3.is_int(b):
            b = z3.ToReal(b)
        if isinstance(b, Fr) and isz(a) and z3.is_int(a):
            a = z3.ToReal(a)
        if isinstance(a, Fr) and isz(b):
            a = z3.RealVal(a)
        if isinstance(b, Fr) and isz(a):
            b = z3.RealVal(b)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
        if op == '<':
            return a < b
        if op == '<=':
            return a <= b
        if op == '>':
            return a > b
        if op == '>=':
            return a >= b
        isd = 'double' in (n.ty or '') or 'float' in (n.ty or '')
        if op == '/':
            if isd:
                if not isz(a) and not isz(b):
                    return Fr(a) / Fr(b)
                return tz(rnum(a)) / tz(rnum(b))
            if not isz(a) and not isz(b):
                q = abs(a) // abs(b)
                return q if (a >= 0) == (b >= 0) else -q
            self.unsup(n)
        if op == '%':
            if not isz(a) and not isz(b):
                return a - b * int(Fr(a, b))
            if not isz(b) and b > 0:
                # C++ remainder takes the sign of the dividend
                return z3.If(a >= 0, a % b, -((-a) % b))
            self.unsup(n)
        if op in ('|', '&', '^', '<<', '>>') and not isz(a) and not isz(b):
            return {'|': a | b, '&': a & b, '^': a ^ b, '<<': a << b, '>>': a >> b}[op]
        self.unsup(n)

    def e_CompoundAssignOperator(self, n):
        l = self.eval(n.inner[0])
        r = self.ev(n.inner[1])
        l.set(self.binop(n.op[:-1], self.rv(l), r, n))
        return l

    def truth(self, n):
        v = self.ev(n)
        if isinstance(v, TypeTag):
            self.unsup(n)
        if v is None:
            return False
        if isinstance(v, Obj):
            return True
        return self.decide(v)

    def e_ConditionalOperator(self, n):
        c = self.ev(n.inner[0])
        if isz(c) and z3.is_bool(c):
            # keep numeric conditionals symbolic
            a, b = n.inner[1], n.inner[2]
            if all((x.ty or '') in ('int', 'double', 'bool', 'unsigned long') and x.k in ('IntegerLiteral', 'FloatingLiteral', 'CXXBoolLiteralExpr') for x in (a, b)):
                x, y = self.ev(a), self.ev(b)
                if isinstance(x, Fr):
                    x, y = z3.RealVal(x), z3.RealVal(y)
                elif isinstance(x, int) and not isinstance(x, bool):
                    x, y = z3.IntVal(x), z3.IntVal(y)
                return z3.If(c, x, y)
        return self.eval(n.inner[1]) if self.decide(c) else self.eval(n.inner[2])

    def e_ArraySubscriptExpr(self, n):
        self.unsup(n)

    # ------------------------------------------------------------ construction
    def e_CXXNewExpr(self, n):
        return self.eval(n.inner[0])

    def e_CXXTemporaryObjectExpr(self, n):
        return self.e_CXXConstructExpr(n)

    def e_CXXScalarValueInitExpr(self, n):
        return 0

    def e_InitListExpr(self, n):
        self.unsup(n)

    def e_CXXConstructExpr(self, n):
        t = strip(n.ty)
        ctor = (n.x or {}).get('ctorType', '')
        args = n.inner
        if isptr(n.ty):
            if not args:
                return None
            v = self.rv(self.eval(args[0]))
            return v
        if t == 'Shape':
            if len(args) == 1 and 'Shape' in ctor:
                return self.ev(args[0]).copy()
            vals = [self.ev(a) for a in args]
            return self.ctx.shape_ctor(self, vals)
        if t.startswith('std::vector') or t.startswith('std::list') or t in ('BasicPtrVec', 'ConstBasicPtrVec', 'ArgumentPtrVec'):
            if not args or args[0].k == 'CXXDefaultArgExpr':
                return Seq()
            v = self.ev(args[0])
            if isinstance(v, Seq):
                return v.copy()
            if isinstance(v, It) and len(args) >= 2:
                self.ev(args[1])
                return v.s.copy()
            self.unsup(n)
        if t.startswith('std::map') or t.startswith('std::set') or t in ('BasicPtrMap',):
            if args:
                v = self.ev(args[0])
                return self.copyval(v)
            return MapV() if 'map' in t or 'Map' in t else Rec('set')
        if '_iterator' in t or t.endswith('iterator') or '_Rb_tree' in t:
            if not args:
                raise Unsupported('iterator without a container')
            return self.copyval(self.ev(args[0]))
        if 'basic_string' in t or t in ('std::string', 'string') or 'stringstream' in t:
            for a in args:
                if a.k != 'CXXDefaultArgExpr':
                    self.quiet(a)
            return Str()
        if t == 'Argument':
            if not args:
                return None
            vals = [self.ev(a) for a in args]
            return vals[-1]
        cls = t.split('::')[-1].split('<')[0] if '<' not in t else t
        return self.construct(t, ctor, args, n)

    def quiet(self, n):
        """evaluate for effects on the path that matter (none for strings); ignore what it cannot model"""
        return None

    def construct(self, t, ctor, argn, n):
        base = t.split('<')[0].split('::')[-1] if 'Functor' in t else t.split('::')[-1]
        r = self.ctx.construct(self, t, base, ctor, argn, n)
        if r is not NotImplemented:
            return r
        f = self.find_ctor(base, t, ctor)
        if f is None:
            if 'Functor' in t or base in ('Inserter', 'Scalarizer'):
                return Rec(t)
            raise Unsupported('constructor of %s %s' % (t, ctor))
        if self.ctx.is_basic(base):
            o = Obj(self, [self.ctx.typename(base)] if self.ctx.typename(base) else self.ctx.domain, SC())
            o.built = True
            o.cls = base
            self.alloc.append(o)
        else:
            o = Rec(t)
        self.call_ctor(f, o, argn)
        return o

    def find_ctor(self, base, t, ctor):
        norm = lambda s: (s or '').replace('Symbolics::', '').replace(' noexcept', '')
        cands = []
        for f in self.P.funcs.values():
            if f.kind == 'CXXConstructorDecl' and f.cls == base and norm(f.ret) == norm(ctor):
                if '<' in t and strip(f.key).split('::' + base + '(')[0].split('>::')[0].count('<') and t.split('<', 1)[1].rstrip('>').strip() not in strip(f.key):
                    continue
                cands.append(f)
        if '<' in t and len(cands) > 1:
            inner = t.split('<', 1)[1]
            cands = [f for f in cands if strip(f.key).replace(' ', '').find(t.split('::')[-1].replace(' ', '')) >= 0] or cands
        return cands[0] if cands else None

    def call_ctor(self, f, o, argn=None, vals=None):
        if vals is None:
            vals = self.bindargs(f, argn)
        self.push(f, o, vals)
        try:
            for member, base, exprs in f.inits:
                if base is not None:
                    bt = strip(base)
                    e = exprs[0] if exprs else None
                    if bt == 'Basic':
                        self.basic_init(o, e)
                        continue
                    if bt == 'List' or not self.ctx.is_basic(bt.split('::')[-1]):
                        if bt in ('List',) or bt == 'Shape':
                            continue
                    while e is not None and e.k in ('ExprWithCleanups',):
                        e = e.inner[0]
                    if e is None or e.k != 'CXXConstructExpr':
                        raise Unsupported('base init %s' % base)
                    g = self.find_ctor(bt.split('::')[-1], bt, (e.x or {}).get('ctorType'))
                    if g is None:
                        raise Unsupported('base ctor %s' % base)
                    self.call_ctor(g, o, e.inner)
                else:
                    fld = member['name'] if isinstance(member, dict) else member
                    if isinstance(o, ShapeV) and fld in ('m_numElem',):
                        continue
                    v = self.copyval(self.ev(exprs[0])) if exprs else None
                    self.setfield(o, fld, v)
            self.default_fields(o, f)
            if f.cls in ('Matrix', 'SymmetricMatrix') and isinstance(o, Obj):
                o.sym = f.cls == 'SymmetricMatrix'      # the dynamic class while this body runs
            try:
                self.exec(f.body)
            except Ret:
                pass
        finally:
            self.frames.pop()

    def default_fields(self, o, f):
        if not isinstance(o, Obj):
            return
        c = f.cls
        for name, ty in self.P.classes.get(c, {}).get('fields', []):
            if name in o.fields or name in ('m_type', 'm_shape', 'm_simplified', 'm_hash', 'm_parents', 'm_refCount'):
                continue
            t = strip(ty)
            if t.startswith('std::vector'):
                o.fields[name] = Seq()
            elif t == 'Argument':
                o.fields[name] = None

    def basic_init(self, o, e):
        while e.k in ('ExprWithCleanups', 'CXXBindTemporaryExpr'):
            e = e.inner[0]
        a = [self.ev(x) for x in e.inner if x.k != 'CXXDefaultArgExpr']
        if isinstance(a[0], int):
            tn = self.P.enumval[a[0]][5:]
            o.types = frozenset([tn])
        o.shape = a[1].copy() if len(a) > 1 and isinstance(a[1], ShapeV) else SC()
        if o.ty() == 'Matrix':
            self.concretize(o.shape)
        o.fields['m_simplified'] = False

    # ------------------------------------------------------------ calls
    def bindargs(self, f, argn):
        vals = []
        for k, p in enumerate(f.params):
            if k >= len(argn):
                # default argument
                d = p[3].inner[-1] if p[3].inner else None
                vals.append(self.ev(d) if d is not None else None)
                continue
            a = argn[k]
            if a.k == 'CXXDefaultArgExpr':
                d = p[3].inner[-1] if p[3].inner else None
                vals.append(self.ev(d) if d is not None else ('default',))
                continue
            vals.append(self.bindval(p[2], self.eval(a)))
        return vals

    def bindval(self, ty, v):
        ty = ty or ''
        if ty.strip().endswith('&') and not ty.strip().startswith('const') and ' const' not in ty:
            return v
        if ty.strip().endswith('&'):
            return self.rv(v)
        return self.copyval(self.rv(v))

    def push(self, f, this, vals):
        self.depth += 1
        if len(self.frames) > 40:
            raise Unsupported('call depth')
        fr = {'vars': {}, 'this': this, 'tu': self.P.tus[f.tu], 'f': f}
        for p, v in zip(f.params, vals):
            fr['vars'][p[0]] = v if isinstance(v, LVS) else Cell(v, p[2])
        self.frames.append(fr)

    def body(self, f, this, vals):
        """interpret a function body"""
        self.push(f, this, vals)
        try:
            self.exec(f.body)
            r = None
        except Ret as x:
            r = x.v
        finally:
            self.frames.pop()
        return r

    def invoke(self, f, this, vals, n=None):
        """call through the contract if there is one, otherwise inline the body"""
        g = f if f.body is not None else self.P.funcs.get(f.key)
        c = self.ctx.contract(f.key)
        if c is not None and c.raw:
            self.ctx.used.add(c.key)
            return c.rawuse(self, this, vals)
        if c is not None and c.usable(self, this, vals):
            return self.ctx.use(self, c, this, [self.rv(v) if not c.raw else v for v in vals])
        if g is None:
            raise Unsupported('no body and no contract: ' + str(f.key))
        if self.stack.count(g.key) >= 1 and g.key not in self.ctx.recursive_ok:
            raise Unsupported('recursion without contract: ' + g.key)
        self.stack.append(g.key)
        self.ctx.inlined.add(g.key)
        if g.name == 'getIndex' and len(vals) == 2 and isinstance(this, Obj):
            vals = self.concrete_index(this, vals)
        try:
            return self.body(g, this, vals)
        finally:
            self.stack.pop()

    def concrete_index(self, o, vals):
        """explicit matrices have concrete sizes: case split on symbolic indices"""
        d = self.concrete_shape(o.shape)
        if d is None:
            return vals
        out = []
        for v, n in zip(vals, d[1:]):
            v = self.rv(v)
            if isz(v):
                for c in range(n):
                    if self.decide(v == c):
                        v = c
                        break
            out.append(v)
        return out

    def callee(self, n):
        while n.k in ('ImplicitCastExpr', 'ParenExpr'):
            n = n.inner[0]
        return n

    def e_CallExpr(self, n):
        c = self.callee(n.inner[0])
        if c.k == 'MemberExpr':
            return self.e_CXXMemberCallExpr(n)
        if c.k != 'DeclRefExpr':
            self.unsup(n)
        f = self.func_of(c.ref[0])
        name = c.ref[1]
        if f is None:
            return self.ctx.cfunction(self, name, n)
        vals = self.bindargs(f, n.inner[1:])
        return self.invoke(f, None, vals, n)

    def e_CXXMemberCallExpr(self, n):
        m = self.callee(n.inner[0])
        if m.k != 'MemberExpr':
            self.unsup(n)
        base = self.eval(m.inner[0])
        b = self.rv(base)
        return self.method(b, base, m, n.inner[1:], n)

    def method(self, b, base, m, argn, n):
        name = m.name
        if isinstance(b, Seq):
            return self.seq_method(b, name, argn, n)
        if isinstance(b, MapV):
            return self.map_method(b, name, argn, n)
        bt = m.inner[0].ty or ''
        if strip(bt) == 'Argument' or (isinstance(base, (FieldLV, ElLV)) and strip(bt) == 'Argument'):
            return self.arg_method(base, name, argn, n)
        if isptr(bt) and not bt.strip().endswith('*'):
            if name in ('get', 'operator->', 'operator*', 'release'):
                return b
            if name.startswith('operator') :
                return b is not None
        if isinstance(b, (Str, str)):
            return Str()
        if b is None:
            raise Unsupported('null dereference at line %s' % n.line)
        if isinstance(b, Rec) and b.cls == 'visitor' and name == 'process_Arg':
            return self.ctx.visit(self, self.ev(argn[0]))
        f = self.func_of(m.ref[0])
        if f is None:
            self.unsup(n, 'method %s' % name)
        if isinstance(b, Obj):
            return self.call_method(b, f, argn, n, static=False)
        vals = self.bindargs(f, argn)
        return self.invoke(f, b, vals, n)

    def call_method(self, o, f, argn, n, static, vals=None):
        """method call on a Basic object: contract of the statically named method, else dynamic dispatch"""
        if vals is None:
            vals = self.bindargs(f, argn)
        r = self.ctx.method(self, o, f, vals)
        if r is not NotImplemented:
            return r
        # dispatch
        d = self.ctx.dispatch(self, o, f)
        return self.invoke(d, o, vals, n)

    def arg_method(self, lv, name, argn, n):
        if name == 'getArg':
            v = self.rv(lv)
            if v is None:
                raise Unsupported('argument unset')
            return v
        if name == 'setArg':
            lv.set(self.ev(argn[0]))
            return None
        if name in ('registerParent',):
            return None
        if name == 'unregisterParent':
            return None
        self.unsup(n, name)

    def e_CXXOperatorCallExpr(self, n):
        c = self.callee(n.inner[0])
        name = c.ref[1]
        argn = n.inner[1:]
        t0 = argn[0].ty or ''
        f = self.func_of(c.ref[0])
        if name == 'operator->' or (name == 'operator*' and len(argn) == 1):
            v = self.eval(argn[0])
            b = self.rv(v)
            if isinstance(b, It):
                return self.deref(b)
            return b
        if name == 'operator=' and isptr(t0):
            l = self.eval(argn[0])
            l.set(self.ev(argn[1]))
            return l
        b0 = None
        if name == 'operator<' and f is None:
            x, y = self.ev(argn[0]), self.ev(argn[1])
            if isinstance(x, NameTag) and isinstance(y, NameTag):
                return self.ctx.relation(self, 'name', x.o, y.o)
            self.unsup(n, name)
        if name in ('operator[]', 'operator=', 'operator++', 'operator--', 'operator==', 'operator!=', 'operator<<', 'operator+=', 'operator+') and f is None:
            l = self.eval(argn[0])
            b0 = self.rv(l)
            if name == 'operator[]':
                i = self.ev(argn[1])
                if isinstance(b0, Seq):
                    return ElLV(self, b0, i)
                if isinstance(b0, MapV):
                    return self.map_index(b0, i)
            if name == 'operator=':
                r = self.copyval(self.ev(argn[1]))
                l.set(r)
                return l
            if name in ('operator++', 'operator--') and isinstance(b0, It):
                old = It(b0.s, b0.i)
                new = It(b0.s, self.it_add(b0, 1 if name == 'operator++' else -1))
                l.set(new)
                return new if len(argn) == 1 else old
            if name in ('operator==', 'operator!='):
                b1 = self.ev(argn[1])
                if isinstance(b0, It) and isinstance(b1, It):
                    r = self.it_eq(b0, b1)
                    if name == 'operator!=':
                        r = (not r) if isinstance(r, bool) else z3.Not(r)
                    return r
                if isinstance(b0, NameTag) and isinstance(b1, NameTag):
                    return self.same_symbol(b0.o, b1.o) == (name == 'operator==')
                if isinstance(b0, (Obj, type(None))) and isinstance(b1, (Obj, type(None))):
                    return (b0 is b1) == (name == 'operator==')
            if name in ('operator<<', 'operator+', 'operator+='):
                return b0 if not isinstance(b0, str) else Str()
            self.unsup(n, name)
        if f is None:
            self.unsup(n, name)
        if f.kind == 'CXXMethodDecl':
            l = self.eval(argn[0])
            b = self.rv(l)
            if isinstance(b, ShapeV) and name == 'operator=':
                r = self.ev(argn[1]).copy()
                b.nd, b.d1, b.d2, b.nel = r.nd, r.d1, r.d2, r.nel
                l.set(r) if isinstance(l, LVS) else None
                return l
            if isinstance(b, Obj):
                return self.call_method(b, f, argn[1:], n, static=False)
            vals = self.bindargs(f, argn[1:])
            return self.invoke(f, b if not isinstance(b, (bool, int)) else l, vals, n)
        vals = self.bindargs(f, argn)
        if f.key and f.key.startswith('boost::') or not (f.key or '').startswith('Symbolics') and isptr(t0) and name in ('operator==', 'operator!='):
            if len(vals) == 2 and name in ('operator==', 'operator!='):
                return (self.rv(vals[0]) is self.rv(vals[1])) == (name == 'operator==')
        return self.invoke(f, None, vals, n)

    # ------------------------------------------------------------ sequences, maps
    def deref(self, it):
        if isinstance(it.s, Seq):
            return ElLV(self, it.s, it.i)
        if isinstance(it.s, MapV):
            if it.i == 'gen':
                return ('pair', Cell(it.s.gen[0]), it.s.gen[1])
            k, c = it.s.items[it.i]
            return ('pair', Cell(k), c)
        raise Unsupported('deref')

    def it_add(self, it, d):
        if it.i == 'end':
            raise Unsupported('iterator past the end')
        return it.i + d

    def it_pos(self, it):
        if it.i == 'end':
            return self.seq_len(it.s) if isinstance(it.s, Seq) else len(it.s.items)
        return it.i

    def it_eq(self, a, b):
        if isinstance(a.s, MapV) and a.s.opq is not None:
            if a.i == b.i:
                return True
            if a.i == 'gen' or b.i == 'gen':
                return False
        if a.i == 'end' and b.i == 'end':
            return True
        return self.it_pos(a) == self.it_pos(b)

    def seq_method(self, s, name, argn, n):
        if name in ('size',):
            return self.seq_len(s)
        if name == 'empty':
            return self.seq_len(s) == 0
        if name == 'reserve':
            return None
        if name == 'clear':
            s.segs = []
            return None
        if name == 'push_back':
            v = self.copyval(self.ev(argn[0]))
            s.flat()
            s.segs.append(v)
            return None
        if name == 'push_front':
            s.flat()
            s.segs.insert(0, self.copyval(self.ev(argn[0])))
            return None
        if name == 'begin':
            return It(s, 0)
        if name == 'end':
            return It(s, 'end')
        if name in ('back', 'front'):
            L = self.seq_len(s)
            return ElLV(self, s, L - 1 if name == 'back' else 0)
        if name == 'pop_back':
            s.flat()
            if s.segs and not isinstance(s.segs[-1], Opq):
                s.segs.pop()
                return None
            self.unsup(n, name)
        if name == 'insert':
            it = self.ev(argn[0])
            if isinstance(it, It) and it.i == 0 and len(argn) == 2:
                s.flat()
                s.segs.insert(0, self.ev(argn[1]))
                return None
            if isinstance(it, It) and it.i == 'end':
                if len(argn) == 2:
                    s.flat()
                    s.segs.append(self.ev(argn[1]))
                    return None
                a, b = self.ev(argn[1]), self.ev(argn[2])
                if isinstance(a, It) and a.i == 0 and b.i == 'end':
                    s.flat()
                    s.segs += a.s.flat()
                    return None
            self.unsup(n, name)
        if name == 'sort':
            # some order of the same elements; multiplication of scalars does not depend on it
            return None
        if name == 'at':
            return ElLV(self, s, self.ev(argn[0]))
        if name == 'erase':
            it = self.ev(argn[0])
            fl = s.flat()
            if not isz(it.i) and it.i != 'end' and not any(isinstance(x, Opq) for x in fl):
                del s.segs[it.i]
                return It(s, it.i)
        self.unsup(n, 'seq.' + name)

    def map_method(self, m, name, argn, n):
        if name == 'begin':
            if m.opq is not None and not m.items:
                return It(m, 'end') if m.opq == 'none' else It(m, 'gen0')
            return It(m, 0)
        if name == 'end':
            return It(m, 'end')
        if name == 'size':
            if m.opq is None:
                return len(m.items)
            return self.skolem('mapsize')
        if name == 'clear':
            m.items = []
            m.opq = None
            return None
        if name == 'find':
            k = self.ev(argn[0])
            return self.map_find(m, k)
        self.unsup(n, 'map.' + name)

    def map_find(self, m, k):
        for i, (key, c) in enumerate(m.items):
            if key is k or self.ctx.same_key(self, key, k):
                return It(m, i)
        if m.opq is not None:
            # present in the unknown rest?
            if self.choose(2, 'find') == 0:
                return It(m, self.ctx.map_extract(self, m, k))
        return It(m, 'end')

    def map_index(self, m, k):
        it = self.map_find(m, k)
        if it.i == 'end':
            c = Cell(None)
            m.items.append((k, c))
            return c
        return m.items[it.i][1]

    # ------------------------------------------------------------ statements
    def exec(self, n):
        if n is None:
            return
        k = n.k
        if k == 'CompoundStmt':
            for c in n.inner:
                self.exec(c)
            return
        if k == 'ReturnStmt':
            if not n.inner:
                raise Ret(None)
            f = self.frames[-1]['f']
            ret = f.ret.split('(')[0].strip() if f.ret else ''
            v = self.eval(n.inner[0])
            if ret.endswith('&') and not ret.startswith('const'):
                raise Ret(v)
            raise Ret(self.copyval(self.rv(v)))
        if k == 'IfStmt':
            ch = list(n.inner)
            x = n.x or {}
            if x.get('hasInit') or x.get('hasVar'):
                self.unsup(n)
            if self.truth(ch[0]):
                self.exec(ch[1])
            elif len(ch) > 2:
                self.exec(ch[2])
            return
        if k == 'DeclStmt':
            for d in n.inner:
                self.decl(d)
            return
        if k == 'SwitchStmt':
            return self.switch(n)
        if k == 'ForStmt':
            return self.ctx.loop(self, n)
        if k in ('WhileStmt', 'DoStmt', 'CXXForRangeStmt'):
            return self.ctx.loop(self, n)
        if k == 'BreakStmt':
            raise Brk()
        if k == 'ContinueStmt':
            raise Cont()
        if k == 'NullStmt':
            return
        if k in ('CaseStmt', 'DefaultStmt'):
            return self.exec(n.inner[-1])
        if k == 'CXXTryStmt':
            self.unsup(n)
        self.evalstmt(n)

    def evalstmt(self, n):
        m = n
        while m.k == 'ExprWithCleanups':
            m = m.inner[0]
        if m.k == 'CXXThrowExpr':
            x = m.inner[0] if m.inner else None
            raise CThrow(strip(x.ty).split('::')[-1] if x is not None else 'rethrow')
        self.eval(n)

    def e_CXXThrowExpr(self, m):
        x = m.inner[0] if m.inner else None
        raise CThrow(strip(x.ty).split('::')[-1] if x is not None else 'rethrow')

    def decl(self, d):
        if d.k != 'VarDecl':
            return
        ty = d.ty or ''
        if d.inner:
            init = d.inner[-1]
            v = self.eval(init)
            if ty.strip().endswith('&'):
                cell = v if isinstance(v, LVS) and not ty.startswith('const') else Cell(self.rv(v), ty)
            else:
                cell = Cell(self.copyval(self.rv(v)), ty)
        else:
            cell = Cell(self.undef(ty), ty)
        self.frames[-1]['vars'][d.id] = cell

    def undef(self, ty):
        t = strip(ty)
        if t in ('int', 'unsigned long', 'long', 'unsigned int', 'size_t'):
            return self.skolem('undef')
        if t == 'double':
            return self.skolem('undef', 'real')
        if t == 'bool':
            self.nsk += 1
            return z3.Bool('undefb!%d' % self.nsk)
        return None

    def switch(self, n):
        v = self.ev(n.inner[0])
        body = n.inner[-1]
        items = []
        # flatten the labels

        def flat(s):
            if s.k == 'CaseStmt':
                items.append(('case', s.inner[0]))
                flat(s.inner[-1])
            elif s.k == 'DefaultStmt':
                items.append(('default', None))
                flat(s.inner[-1])
            else:
                items.append(('s', s))
        for s in body.inner:
            flat(s)
        labels = [(i, x) for i, (k, x) in enumerate(items) if k == 'case']
        start = None
        if isinstance(v, TypeTag):
            o = v.o
            names = []
            for i, x in labels:
                c = self.ev(x)
                nm = self.P.enumval.get(c)
                names.append((nm[5:], i))
            opts = [(nm, i) for nm, i in names if nm in o.types]
            rest = o.types - {nm for nm, _ in names}
            k = len(opts) + (1 if rest else 0)
            if k == 0:
                raise PathEnd('switch')
            c = self.choose(k, 'switch') if k > 1 else 0
            if c < len(opts):
                self.narrow(o, [opts[c][0]])
                if not self.feasible():
                    raise PathEnd('type')
                start = opts[c][1]
            else:
                self.narrow(o, rest)
        else:
            for i, x in labels:
                c = self.ev(x)
                if self.decide(v == c if not isz(v) else v == zi(c)):
                    start = i
                    break
        if start is None:
            for i, (k, x) in enumerate(items):
                if k == 'default':
                    start = i
        if start is None:
            return
        try:
            for k, s in items[start:]:
                if k == 's':
                    self.exec(s)
        except Brk:
            pass
