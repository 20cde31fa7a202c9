"""heapvc: verification conditions for the container code of symbolics/graph.

Walks clang's AST of the real sources (cxxvc/frontend.py).  State: one array per field and
leaf of its type (pointers are references of an uninterpreted sort, std::set/map are
characteristic arrays, std::vector a length and an array), ghost variables, path condition.
Calls use the callee's contract (or its body when it has none and is not recursive), loops the
invariant of the contract; sets and maps are iterated in an arbitrary order.  z3 discharges.
"""
import itertools
import z3


class Undecided(Exception):
    pass


class World:
    """finite=None: the general world; finite=k: k references, vectors up to k, for refutations"""

    def __init__(self, finite=None):
        self.finite = finite
        self.n = 0
        if finite:
            self.ctx = z3.Context()
            self.Ref, self.refs = z3.EnumSort('Ref', ['r%d' % i for i in range(finite)], ctx=self.ctx)
        else:
            self.ctx = z3.Context()
            self.Ref = z3.DeclareSort('Ref', self.ctx)
        self.Int = z3.IntSort(self.ctx)
        self.Bool = z3.BoolSort(self.ctx)
        self.Real = z3.RealSort(self.ctx)
        P = z3.Datatype('Pair', self.ctx)
        P.declare('mk', ('first', self.Int), ('second', self.Int))
        self.Pair = P.create()
        self.null = self.refs[0] if finite else z3.Const('null', self.Ref)
        self.band = z3.Function('band', self.Int, self.Int, self.Int)
        self.fns = {}

    def fresh(self, name, sort):
        self.n += 1
        return z3.Const('%s!%d' % (name, self.n), sort)

    def fn(self, name, *sorts):
        if name not in self.fns:
            self.fns[name] = z3.Function(name, *sorts)
        return self.fns[name]

    def true(self):
        return z3.BoolVal(True, self.ctx)

    def false(self):
        return z3.BoolVal(False, self.ctx)

    def i(self, v):
        return z3.IntVal(v, self.ctx)

    def dom(self, sort):
        if sort == self.Ref:
            return self.refs
        if sort == self.Int:
            return [self.i(k) for k in range(-1, self.finite + 1)]
        if sort == self.Pair:
            return [self.Pair.mk(self.i(a), self.i(b)) for a in (0,) for b in (0, 1)]
        raise Undecided('no finite domain of ' + str(sort))

    def all(self, sorts, f, pat=None):
        if not isinstance(sorts, (list, tuple)):
            sorts = [sorts]
        if self.finite:
            return z3.And([f(*x) for x in itertools.product(*[self.dom(s) for s in sorts])] + [self.true()])
        v = [self.fresh('q', s) for s in sorts]
        b = f(*v)
        if isinstance(b, bool) or z3.is_true(b):
            return self.true()
        ps = [p for p in (pat(*v) if pat else [])]
        return z3.ForAll(v, b, patterns=ps) if ps else z3.ForAll(v, b)

    def some(self, sorts, f):
        return z3.Not(self.all(sorts, lambda *x: z3.Not(f(*x))))


# ------------------------------------------------------------------ types
class Ty:
    def __init__(self, k, name='', a=(), fields=None, raw=''):
        self.k, self.name, self.a, self.fields, self.raw = k, name, a, fields, raw

    def leaves(self, W):
        """path -> sort"""
        k = self.k
        if k == 'bool':
            return {(): W.Bool}
        if k == 'int':
            return {(): W.Int}
        if k == 'real':
            return {(): W.Real}
        if k in ('ref', 'str', 'opaque'):
            return {(): W.Ref}
        if k == 'set':
            return {('dom',): z3.ArraySort(self.a[0].key(W), W.Bool)}
        if k == 'vec':
            d = {('len',): W.Int}
            for p, s in self.a[0].leaves(W).items():
                d[('at',) + p] = z3.ArraySort(W.Int, s)
            return d
        if k == 'map':
            kk = self.a[0].key(W)
            d = {('dom',): z3.ArraySort(kk, W.Bool)}
            for p, s in self.a[1].leaves(W).items():
                d[('at',) + p] = z3.ArraySort(kk, s)
            return d
        if k == 'struct':
            d = {}
            for n, t in self.fields:
                for p, s in t.leaves(W).items():
                    d[(n,) + p] = s
            return d
        raise Undecided('type ' + self.raw)

    def key(self, W):
        if self.k == 'struct' and self.name == 'pair':
            return W.Pair
        l = self.leaves(W)
        if list(l) != [()]:
            raise Undecided('key type ' + self.raw)
        return l[()]


INTS = {'int', 'unsigned int', 'unsigned long', 'size_t', 'long', 'unsigned', 'std::size_t', 'unsigned char', 'char', 'long long'}


def split_args(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == '<' or ch == '(':
            d += 1
        if ch == '>' or ch == ')':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    out.append(cur.strip())
    return out


def typedefs(repo):
    """typedefs of the headers: clang does not resolve them below references"""
    import re, glob
    out = {}
    for h in glob.glob(repo + '/symbolics/include/*.h') + glob.glob(repo + '/symbolics/graph/include/*.h'):
        t = open(h, encoding='latin-1').read()
        for m in re.finditer(r'typedef\s+([^;{}]+?)\s*(\w+)\s*;', t):
            out[m.group(2)] = ' '.join(m.group(1).split())
        for m in re.finditer(r'typedef\s+(?:struct|class)\s+(\w+)\s*\{', t):
            d, i = 1, m.end()
            while d and i < len(t):
                d += {'{': 1, '}': -1}.get(t[i], 0)
                i += 1
            n = re.match(r'\s*(\w+)\s*;', t[i:])
            if n:
                out[n.group(1)] = m.group(1)
    return out


def ty(P, s, depth=0):
    raw = s
    s = (s or '').strip()
    while True:
        t = s
        for w in ('const ', 'struct ', 'class ', 'enum ', 'volatile '):
            if s.startswith(w):
                s = s[len(w):]
        if s.endswith('&'):
            s = s.rstrip('&').strip()
        if s.endswith(' const'):
            s = s[:-6]
        s = s.strip()
        if s == t:
            break
    if s.endswith('*'):
        return Ty('ref', s, raw=raw)
    if getattr(P, 'valued', False) and s in ('double', 'float', 'BasicPtr', 'ConstBasicPtr', 'Symbolics::BasicPtr'):
        return Ty('real', raw=raw)
    if s == 'bool':
        return Ty('bool', raw=raw)
    if s in INTS or s.startswith('Symbolics::SymbolElementKind') or s.endswith(('Symbol_Kind', 'Basic_Type', 'ElementKind', 'Category_Type', '_BASIC_TYPE')):
        return Ty('int', raw=raw)
    if '<' in s and s.endswith('>'):
        h, a = s.split('<', 1)
        args = split_args(a[:-1])
        b = h.split('::')[-1].lstrip('_')
        if b == 'intrusive_ptr' and getattr(P, 'valued', False) and args[0].replace('const ', '').split('::')[-1].strip() == 'Basic':
            return Ty('real', raw=raw)
        if b == 'intrusive_ptr':
            return Ty('ref', args[0], raw=raw)
        if b == 'set':
            return Ty('set', a=(ty(P, args[0], depth + 1),), raw=raw)
        if b == 'vector':
            return Ty('vec', a=(ty(P, args[0], depth + 1),), raw=raw)
        if b == 'map':
            return Ty('map', a=(ty(P, args[0], depth + 1), ty(P, args[1], depth + 1)), raw=raw)
        if b == 'pair':
            return Ty('struct', 'pair', fields=[('first', ty(P, args[0], depth + 1)), ('second', ty(P, args[1], depth + 1))], raw=raw)
        if b == 'basic_string':
            return Ty('str', raw=raw)
        if 'iterator' in b:
            return Ty('iter', raw=raw)
        return Ty('opaque', s, raw=raw)
    b = s.split('::')[-1]
    td = getattr(P, 'typedefs', {})
    if b in td and depth < 20 and td[b].split('::')[-1] != b:
        return ty(P, td[b], depth + 1)
    if b in ('string', 'basic_string'):
        return Ty('str', raw=raw)
    if b in P.classes and depth < 8:
        f = P.classes[b]['fields']
        return Ty('struct', b, fields=[(n, ty(P, t, depth + 1)) for n, t in f], raw=raw)
    return Ty('opaque', s, raw=raw)


class Val:
    """value of a type: leaves; tag: where a container came from"""

    def __init__(self, t, d, tag=None):
        self.t, self.d, self.tag = t, d, tag

    @property
    def x(self):
        return self.d[()]


class Obj:
    """an object of class type at a reference (this, a local object, *p)"""

    def __init__(self, ref, cls, exact=False):
        self.ref, self.cls, self.exact = ref, cls, exact


class Iter:
    def __init__(self, lv, kind, seen=None, cur=None, end=False, tag=None):
        self.lv, self.kind, self.seen, self.cur, self.end, self.tag = lv, kind, seen, cur, end, tag


class LV:
    def __init__(self, get, put, t, tag=None):
        self.get, self.put, self.t, self.tag = get, put, t, tag


class St:
    def __init__(self):
        self.env, self.heap, self.ghost, self.alias, self.pc = {}, {}, {}, {}, []
        self.notes = {}

    def copy(self):
        s = St()
        s.env, s.heap, s.ghost, s.alias = dict(self.env), dict(self.heap), dict(self.ghost), dict(self.alias)
        s.pc = list(self.pc)
        s.notes = dict(self.notes)
        return s


def item(W, v, key):
    """element of a vector (key Int) or of a map"""
    t = v.t.a[0] if v.t.k == 'vec' else v.t.a[1]
    return Val(t, {p[1:]: z3.Select(a, key) for p, a in v.d.items() if p[0] == 'at'})


def store(W, v, key, x):
    d = dict(v.d)
    for p, e in x.d.items():
        d[('at',) + p] = z3.Store(d[('at',) + p], key, e)
    return Val(v.t, d, v.tag)


def field(v, name):
    for n, t in v.t.fields:
        if n == name:
            return Val(t, {p[1:]: e for p, e in v.d.items() if p[0] == name}, name)
    raise Undecided('no field ' + name)


def put_field(v, name, x):
    d = dict(v.d)
    for p, e in x.d.items():
        d[(name,) + p] = e
    return Val(v.t, d, v.tag)
