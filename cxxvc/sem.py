"""Semantic domain of the verification conditions.

Values of expressions are terms over a non-commutative algebra: a value is a finite sum of
(coefficient) * (commutative monomial of scalar atoms) * (chain of matrix factors).  Terms are
compared by normal form; numeric coefficients, exponents and dimensions are z3 terms and every
side condition (integrality, evenness, equality of coefficients) is an entailment query to z3
under the path condition.  Nothing in here looks at /repo.
"""
import z3
from fractions import Fraction as Fr

ODD = {'sin', 'tan', 'asin', 'atan', 'sign'}
EVEN = {'cos', 'abs'}
INVERSE = {('sin', 'asin'), ('cos', 'acos'), ('tan', 'atan'), ('asin', 'sin'), ('acos', 'cos'), ('atan', 'tan')}
NUMF = {}


def numf(name, arity=1):
    if (name, arity) not in NUMF:
        NUMF[(name, arity)] = z3.Function('R_' + name, *([z3.RealSort()] * (arity + 1)))
    return NUMF[(name, arity)]


def isz(x):
    return isinstance(x, z3.ExprRef)


def rnum(x):
    """number -> Fraction or z3 Real"""
    if isinstance(x, bool):
        return Fr(int(x))
    if isinstance(x, (int, Fr)):
        return Fr(x)
    if isinstance(x, float):
        return Fr(x)
    if isz(x):
        if z3.is_bool(x):
            x = z3.If(x, z3.RealVal(1), z3.RealVal(0))
        if z3.is_int(x):
            x = z3.ToReal(x)
        x = z3.simplify(x)
        if z3.is_rational_value(x):
            return Fr(x.numerator_as_long(), x.denominator_as_long())
        return x
    raise TypeError(repr(x))


def tz(x):
    if isinstance(x, Fr):
        return z3.RealVal(x)
    return x


def cadd(a, b):
    if isinstance(a, Fr) and isinstance(b, Fr):
        return a + b
    return rnum(tz(a) + tz(b))


def cmul(a, b):
    if isinstance(a, Fr) and isinstance(b, Fr):
        return a * b
    if isinstance(a, Fr) and a == 1:
        return b
    if isinstance(b, Fr) and b == 1:
        return a
    return rnum(tz(a) * tz(b))


def cneg(a):
    return -a if isinstance(a, Fr) else rnum(-a)


class Bail(Exception):
    """the normaliser met something it does not model"""


class NFCtx:
    """normal forms under one path context q (needs q.entails, q.decide, q.shape, q.unfold, q.rep)"""

    def __init__(self, q):
        self.q = q
        self.atoms = []      # (kind, payload)
        self.memo = {}
        self.depth = 0

    # ---- atoms
    def atom(self, kind, *pl):
        for i, (k, p) in enumerate(self.atoms):
            if k == kind and len(p) == len(pl) and all(self.same(x, y) for x, y in zip(p, pl)):
                return i
        self.atoms.append((kind, pl))
        return len(self.atoms) - 1

    def same(self, x, y):
        if x is y:
            return True
        if isinstance(x, dict) and isinstance(y, dict):
            return self.eq(x, y)
        if isinstance(x, (str, int, Fr)) and isinstance(y, (str, int, Fr)):
            return x == y
        if (isz(x) or isinstance(x, (int, Fr))) and (isz(y) or isinstance(y, (int, Fr))):
            return self.q.entails(x == y)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.same(a, b) for a, b in zip(x, y))
        return False

    def exp_eq(self, a, b):
        if isinstance(a, Fr) and isinstance(b, Fr):
            return a == b
        return self.q.entails(tz(a) == tz(b))

    def key_eq(self, k1, k2):
        (m1, c1), (m2, c2) = k1, k2
        if len(m1) != len(m2) or len(c1) != len(c2):
            return False
        return all(a == b and self.exp_eq(e, f) for (a, e), (b, f) in zip(m1, m2)) and \
            all(a == b and self.exp_eq(e, f) for (a, e), (b, f) in zip(c1, c2))

    def czero(self, c):
        if isinstance(c, Fr):
            return c == 0
        return self.q.entails(c == 0)

    # ---- NF arithmetic
    def norm(self, items):
        out = []
        for k, c in items:
            if isinstance(c, Fr) and c == 0:
                continue
            for n, (k2, c2) in enumerate(out):
                if k2 == k if not self._sym(k) and not self._sym(k2) else self.key_eq(k, k2):
                    out[n] = (k2, cadd(c2, c))
                    break
            else:
                out.append((k, c))
        return {k: c for k, c in out if not self.czero(c)}

    def _sym(self, k):
        return any(isz(e) for _, e in k[0]) or any(isz(e) for _, e in k[1])

    def add(self, *nfs):
        return self.norm([kc for nf in nfs for kc in nf.items()])

    def scale(self, nf, c):
        return self.norm([(k, cmul(v, c)) for k, v in nf.items()])

    def neg(self, nf):
        return self.scale(nf, Fr(-1))

    def eq(self, a, b):
        if a is b:
            return True
        d = self.add(a, self.neg(b))
        return not d

    def mono_mul(self, m1, m2):
        d = dict(m1)
        for a, e in m2:
            if a in d:
                if self.atoms[a][0] in ('ind',):
                    continue            # indicators are idempotent
                e2 = cadd(d[a], e)
                if self.czero(e2):
                    del d[a]
                else:
                    d[a] = e2
            else:
                d[a] = e
        return tuple(sorted(d.items(), key=lambda x: x[0]))

    def chain_mul(self, c1, c2):
        out = list(c1)
        had = bool(c1) or bool(c2)
        for a, e in c2:
            if self.atoms[a][0] == 'eye':
                continue
            if out and self.atoms[out[-1][0]][0] == 'eye':
                out.pop()
            if out and out[-1][0] == a:
                e2 = cadd(out[-1][1], e)
                if self.czero(e2):
                    out.pop()
                else:
                    out[-1] = (a, e2)
            else:
                out.append((a, e))
        if had and not out:
            out = [(self.atom('eye'), Fr(1))]
        return tuple(out)

    def mul(self, n1, n2):
        return self.norm([((self.mono_mul(m1, m2), self.chain_mul(c1, c2)), cmul(v1, v2)) for (m1, c1), v1 in n1.items() for (m2, c2), v2 in n2.items()])

    def num(self, c):
        c = rnum(c)
        return self.norm([(((), ()), c)])

    def is_num(self, nf):
        if not nf:
            return Fr(0)
        if len(nf) == 1 and ((), ()) in nf:
            return nf[((), ())]
        return None

    def sc_atom(self, i, e=Fr(1)):
        return {(((i, e),), ()): Fr(1)}

    def ch_atom(self, i, e=Fr(1)):
        return {((), ((i, e),)): Fr(1)}

    def ones(self):
        return self.ch_atom(self.atom('ones'))

    def eye(self):
        return self.ch_atom(self.atom('eye'))

    def vec_atom(self, i, scalar):
        return self.sc_atom(i) if scalar else self.ch_atom(i)

    # ---- terms
    def nf(self, t):
        try:
            if t in self.memo:
                return self.memo[t]
        except Exception:
            pass
        self.depth += 1
        if self.depth > 60:
            raise Bail('too deep')
        try:
            r = self._nf(t)
        finally:
            self.depth -= 1
        self.memo[t] = r
        return r

    def scalar(self, t):
        nd = self.q.shp(t)[0]
        return self.q.decide(nd == 0)

    def _nf(self, t):
        k = t[0]
        if k == 'obj':
            o = self.q.rep(t[1])
            u = self.q.unfold(o)
            if u is not None:
                return self.nf(u)
            return self.vec_atom(self.atom('obj', o), self.scalar(('obj', o)))
        if k == 'num':
            return self.num(t[1])
        if k == 'zero':
            return {}
        if k == 'eye':
            return self.eye() if not self.scalar(t) else self.num(1)
        if k == 'add':
            parts = t[1]
            nd = self.q.shp(t)[0]
            out = []
            nonsc = not self.q.decide(nd == 0)
            for p in parts:
                f = self.nf(p)
                if nonsc and f and self.scalar(p):
                    f = self.mul(f, self.ones())
                out.append(f)
            return self.add(*out)
        if k == 'neg':
            return self.neg(self.nf(t[1]))
        if k == 'mul':
            a, b = t[1], t[2]
            na, nb = self.nf(a), self.nf(b)
            if not na or not nb:
                return {}
            if self.scalar(a) or self.scalar(b):
                return self.mul(na, nb)
            r = None
            if self.scalar(t):     # row times column: wrap every chain into a scalar atom
                n = self.q.conc(self.q.shp(a)[2])
                if not isz(n):
                    return self.add(*[self.nf(('mul', ('el', a, 0, k), ('el', b, k, 0))) for k in range(n)])
                return self.wrapdot(self.mul(na, nb))
            r = self.mul(na, nb)
            return r
        if k == 'pow':
            return self.powv(t[1], self.numval(t[2]))
        if k == 'inv':
            return self.powv(t[1], Fr(-1))
        if k == 'fn':
            return self.fn(t[1], t[2])
        if k == 'T':
            if self.scalar(t[1]):
                return self.nf(t[1])
            return self.transpose(self.nf(t[1]))
        if k == 'el':
            return self.el(t[1], t[2], t[3])
        if k == 'sca':
            if self.scalar(t[1]):
                return self.nf(t[1])
            return self.el(t[1], 0, 0)
        if k == 'ifc':
            c = self.cond(t[1])
            a, b = self.nf(t[2]), self.nf(t[3])
            if c is True:
                return a
            if c is False:
                return b
            return self.add(self.mul(c, a), self.mul(self.add(self.num(1), self.neg(c)), b))
        if k == 'cmp':
            return self.cmp(t[1], t[2], t[3])
        if k == 'skew':
            f = self.nf(t[1])
            if not f:
                return {}
            s, f2 = self.canonsign(f)
            return self.scale(self.ch_atom(self.atom('skew', f2)), s)
        if k == 'D':
            return self.der(self.nf(t[1]), t[2])
        if k == 'sub':
            return self.subst(t[1])
        if k == 'mat':
            u = self.q.matvalue(t[1])
            if u is not None:
                return self.nf(u)
            return self.vec_atom(self.atom('mat', t[1]), False)
        if k == 'jac':
            if not self.der(self.nf(t[1]), ('el', t[2], self.q.skolem('K'), 0)):
                return {}
            raise Bail('term jac')
        if k == 'sumk':      # sum over a bound index: payload term at the generic index, count
            f = self.nf(t[1])
            return self.sumk(f, t[2], t[3])
        raise Bail('term ' + k)

    def wrapdot(self, r):
        out = []
        for (m, c), v in r.items():
            if not c:
                out.append(((m, c), v))
                continue
            a = self.atom('dot', c)
            out.append(((self.mono_mul(m, ((a, Fr(1)),)), ()), v))
        return self.norm(out)

    def numval(self, t):
        f = self.nf(t)
        c = self.is_num(f)
        if c is None:
            raise Bail('exponent is no number')
        return c

    def is_int(self, e):
        if isinstance(e, Fr):
            return e.denominator == 1
        if self.q.int_of(e) is not None:
            return True
        if z3.is_mul(e) or z3.is_add(e):
            if all(self.is_int(rnum(x)) for x in e.children()):
                return True
        return self.q.entails(z3.IsInt(e))

    def is_even(self, e):
        if isinstance(e, Fr):
            return e.denominator == 1 and e.numerator % 2 == 0
        k = self.q.int_of(e)
        if k is not None:
            return self.q.entails(k % 2 == 0)
        h = z3.simplify(e / 2)
        return self.q.entails(z3.IsInt(h))

    def not_even(self, e):
        if isinstance(e, Fr):
            return not (e.denominator == 1 and e.numerator % 2 == 0)
        k = self.q.int_of(e)
        if k is not None:
            return self.q.entails(k % 2 != 0)
        if self.q.entails(z3.Not(z3.IsInt(e))):
            return True
        return self.q.entails(z3.Not(z3.IsInt(e / 2)))

    def npow(self, c, e):
        if isinstance(e, Fr) and e == 0:
            return Fr(1)
        if isinstance(e, Fr) and e == 1:
            return c
        if isinstance(c, Fr) and c == 1:
            return c
        if isinstance(c, Fr) and isinstance(e, Fr) and e.denominator == 1 and abs(e) <= 6 and c != 0:
            return c ** int(e)
        if isinstance(c, Fr) and c == -1 and self.is_int(e):
            if self.is_even(e):
                return Fr(1)
            if self.not_even(e):
                return Fr(-1)
        if not isinstance(c, Fr) and self.q.entails(c == 1):
            return Fr(1)
        return rnum(numf('pow', 2)(tz(c), tz(e)))

    def powv(self, base, e):
        f = self.nf(base)
        if self.czero(e):
            return self.num(1) if self.scalar(base) else self.eye()
        if isinstance(e, Fr) and e == 1:
            return f
        if not isinstance(e, Fr) and self.q.entails(e == 1):
            return f
        sc = self.scalar(base)
        return self.pownf(f, e, sc)

    def pownf(self, f, e, sc):
        if not f:
            return {}
        if len(f) == 1:
            ((m, c), v), = f.items()
            if sc and not c:
                if self.is_int(e):
                    mm = []
                    for a, x in m:
                        if self.atoms[a][0] == 'ind':
                            mm.append((a, Fr(1)))
                        else:
                            mm.append((a, cmul(x, e)))
                    return self.norm([((tuple(mm), ()), self.npow(v, e))])
                if not m:
                    return self.num(self.npow(v, e))
                if len(m) == 1 and isinstance(v, Fr) and v == 1 and self.not_even(m[0][1]):
                    return self.norm([((((m[0][0], cmul(m[0][1], e)),), ()), Fr(1))])
            elif not sc and len(c) == 1 and self.is_int(e):
                cc = ((c[0][0], cmul(c[0][1], e)),)
                p = self.pownf({(m, ()): v}, e, True)
                return self.mul(p, {((), cc): Fr(1)})
            elif not sc and isinstance(e, Fr) and e.denominator == 1 and 0 < e <= 4:
                r = f
                for _ in range(int(e) - 1):
                    r = self.mul(r, f)
                return r
        if isinstance(e, Fr) and e.denominator == 1 and 0 < e <= 3:
            r = f
            for _ in range(int(e) - 1):
                r = self.mul(r, f)
            return r
        if self.is_int(e):
            s, f2 = self.canonsign(f)
        else:
            s, f2 = Fr(1), f
        a = self.atom('base', f2)
        r = self.sc_atom(a, e) if sc else self.ch_atom(a, e)
        return self.scale(r, self.npow(s, e)) if s != 1 else r

    def canonsign(self, f):
        """pick one representative of {f,-f} among the atoms seen"""
        g = self.neg(f)
        def dicts(pl):
            for p in pl:
                if isinstance(p, dict):
                    yield p
                elif isinstance(p, tuple):
                    yield from dicts(p)
        for kind, pl in self.atoms:
            for p in dicts(pl):
                if self.eq(p, f):
                    return Fr(1), p
                if self.eq(p, g):
                    return Fr(-1), p
        return Fr(1), f

    def fn(self, name, args):
        fs = [self.nf(a) for a in args]
        nums = [self.is_num(f) for f in fs]
        sc = all(self.scalar(a) for a in args)
        if all(n is not None for n in nums) and sc:
            return self.fnum(name, nums)
        return self.fnf(name, fs, sc)

    def fnum(self, name, nums):
        n = nums[0]
        if len(nums) == 1:
            if isinstance(n, Fr) and n == 0 and name in ('sin', 'tan', 'asin', 'atan', 'abs', 'sign'):
                return {}
            if isinstance(n, Fr) and n == 0 and name == 'cos':
                return self.num(1)
            if name == 'abs':
                return self.num(z3.If(tz(n) >= 0, tz(n), -tz(n)))
            if name == 'sign':
                return self.num(z3.If(tz(n) > 0, z3.RealVal(1), z3.If(tz(n) < 0, z3.RealVal(-1), z3.RealVal(0))))
            if name in ODD or name in EVEN:
                # normalise the sign of the argument
                zn = tz(n)
                ab = z3.If(zn >= 0, zn, -zn)
                v = numf(name)(z3.simplify(ab))
                if name in ODD:
                    v = z3.If(zn >= 0, v, -v)
                return self.num(v)
        return self.num(numf(name, len(nums))(*[tz(x) for x in nums]))

    def fnf(self, name, fs, sc):
        if len(fs) == 1:
            f = fs[0]
            if not f:
                if name in ('sin', 'tan', 'asin', 'atan', 'abs', 'sign'):
                    return {}
            if len(f) == 1:
                ((m, c), v), = f.items()
                if isinstance(v, Fr) and v == 1 and not c and len(m) == 1 and m[0][1] == 1 if not isz(m[0][1] if m else 1) else False:
                    a = self.atoms[m[0][0]]
                    if a[0] == 'fn' and len(a[1][1]) == 1 and (name, a[1][0]) in INVERSE:
                        return a[1][1][0]
                if isinstance(v, Fr) and v == 1 and not m and len(c) == 1 and isinstance(c[0][1], Fr) and c[0][1] == 1:
                    a = self.atoms[c[0][0]]
                    if a[0] == 'fn' and len(a[1][1]) == 1 and (name, a[1][0]) in INVERSE:
                        return a[1][1][0]
                if name == 'abs' and sc and not c and isinstance(v, Fr):
                    # |v x^even| = |v| x^even ; |x^e| with every exponent even or already |.|
                    good = all(self.is_even(e) or self.nonneg(a, e) for a, e in m)
                    if good:
                        return {(m, c): abs(v)}
            if name in ODD or name in EVEN:
                s, f2 = self.canonsign(f)
                a = self.atom('fn', name, (f2,))
                r = self.vec_atom(a, sc)
                return self.neg(r) if (s == -1 and name in ODD) else r
            if name == 'acos':
                s, f2 = self.canonsign(f)
                a = self.atom('fn', name, (f2,))
                r = self.vec_atom(a, sc)
                if s == -1:
                    p = self.num(z3.Real('PI'))
                    if not sc:
                        p = self.mul(p, self.ones())
                    return self.add(p, self.neg(r))
                return r
        a = self.atom('fn', name, tuple(fs))
        return self.vec_atom(a, sc)

    def nonneg(self, a, e):
        k, pl = self.atoms[a]
        return k == 'fn' and pl[0] == 'abs' or k == 'ind'

    def transpose(self, f):
        out = []
        for (m, c), v in f.items():
            out.append(((m, tuple((self.tatom(a), e) for a, e in reversed(c))), v))
        return self.norm(out)

    def tatom(self, a):
        k, pl = self.atoms[a]
        if k in ('eye', 'ones'):
            return a
        if k == 'T':
            return pl[0]
        return self.atom('T', a)

    # ---- elements
    def el(self, t, i, j):
        if self.scalar(t):
            return self.nf(t)
        r = self.elterm(t, i, j)
        if r is not None:
            return self.nf(r)
        f = self.nf(t)
        return self.elnf(f, i, j)

    def elterm(self, t, i, j):
        """push an element access into a term (None: use the normal form)"""
        k = t[0]
        q = self.q
        if k == 'obj':
            o = q.rep(t[1])
            e = q.elem(o, i, j)
            if e is not None:
                return e
            u = q.unfold(o)
            if u is not None:
                return ('el', u, i, j)
            return None
        if k == 'mat':
            return q.matel(t[1], i, j)
        if k == 'zero':
            return ('num', Fr(0))
        if k == 'eye':
            return ('num', Fr(1)) if q.decide(i == j) else ('num', Fr(0))
        if k == 'add':
            return ('add', tuple(p if self.scalar(p) else ('el', p, i, j) for p in t[1]))
        if k == 'neg':
            return ('neg', ('el', t[1], i, j))
        if k == 'mul':
            if self.scalar(t[1]):
                return ('mul', t[1], ('el', t[2], i, j))
            if self.scalar(t[2]):
                return ('mul', ('el', t[1], i, j), t[2])
            n = q.conc(q.shp(t[1])[2])
            if not isz(n) and not isz(i) and not isz(j):
                return ('add', tuple(('mul', ('el', t[1], i, k), ('el', t[2], k, j)) for k in range(n)))
            if q.wants_elementwise(t):
                kk = q.skolem('K')
                return ('sumk', ('mul', ('el', t[1], i, kk), ('el', t[2], kk, j)), kk, q.shp(t[1])[2])
            return None
        if k == 'pow' and not isz(i) and not isz(j):
            e = self.numval(t[2])
            if isz(e):
                for c in (1, 2, 3, 4):
                    if q.entails(e == c):
                        e = Fr(c)
                        break
            if not isz(e) and e.denominator == 1 and 1 <= e <= 4:
                return ('el', t[1], i, j) if e == 1 else ('el', ('mul', t[1], ('pow', t[1], ('num', e - 1))), i, j)
            return None
        if k == 'T':
            return ('el', t[1], j, i)
        if k == 'fn' and len(t[2]) == 1:
            return ('fn', t[1], (('el', t[2][0], i, j),))
        if k == 'ifc':
            return ('ifc', t[1], ('el', t[2], i, j), ('el', t[3], i, j))
        if k == 'D':
            return ('D', ('el', t[1], i, j), t[2])
        if k == 'sub':
            if t[1][0] == 'obj' and q.subst_obj(q.rep(t[1][1])) is not None:
                return ('el', q.subst_obj(q.rep(t[1][1])), i, j)
            x = self.elterm(t[1], i, j)
            return None if x is None else ('sub', x)
        if k == 'jac':
            f, v = t[1], t[2]
            a = ('el', f, i, 0) if q.decide(q.shp(f)[2] == 1) else ('el', f, 0, i)
            b = (j, 0) if q.decide(q.shp(v)[2] == 1) else (0, j)
            x = self.elterm(v, *b)
            return ('D', a, x if x is not None else ('el', v) + b)
        if k == 'skew':
            v = t[1]
            for a in range(3):
                if q.decide(i == a):
                    for b in range(3):
                        if q.decide(j == b):
                            if a == b:
                                return ('num', Fr(0))
                            c = 3 - a - b
                            e = ('el', v, c, 0)
                            return ('neg', e) if (b - a) % 3 == 1 else e
            raise Bail('skew index')
        return None

    def elnf(self, f, i, j):
        out = []
        for (m, c), v in f.items():
            if not c:
                out.append(((m, c), v))
                continue
            if len(c) == 1 and isinstance(c[0][1], Fr) and c[0][1] == 1:
                k, pl = self.atoms[c[0][0]]
                if k == 'ones':
                    out.append(((m, ()), v))
                    continue
                if k == 'eye':
                    if self.q.decide(i == j):
                        out.append(((m, ()), v))
                    continue
                if k == 'T':
                    a = self.atom('el', ((pl[0], Fr(1)),), j, i)
                    out.append(((self.mono_mul(m, ((a, Fr(1)),)), ()), v))
                    continue
                if k == 'D':
                    pass
            a = self.atom('el', c, i, j)
            out.append(((self.mono_mul(m, ((a, Fr(1)),)), ()), v))
        return self.norm(out)

    def sumk(self, f, k, n):
        """linear in the summand: constants (w.r.t. the bound index) move out"""
        if not f:
            return {}
        out = []
        for (m, c), v in f.items():
            if c:
                raise Bail('sum of non-scalars')
            dep = tuple((a, e) for a, e in m if self.depends(a, k))
            ind = tuple((a, e) for a, e in m if not self.depends(a, k))
            s = self.atom('sum', {(dep, ()): Fr(1)}, n)
            out.append(((self.mono_mul(ind, ((s, Fr(1)),)), ()), v))
        return self.norm(out)

    def depends(self, a, k):
        def dep(x):
            if isz(x):
                return z3.z3util_contains(x, k) if hasattr(z3, 'z3util_contains') else (str(k) in str(x))
            if isinstance(x, dict):
                return any(any(self.depends(a2, k) for a2, _ in m) or any(self.depends(a2, k) for a2, _ in c) for (m, c) in x)
            if isinstance(x, tuple):
                return any(dep(y) for y in x)
            if hasattr(x, 'index_of'):
                return x.index_of(k)
            return False
        kind, pl = self.atoms[a]
        if kind == 'el':
            return any(self.depends(b, k) for b, _ in pl[0]) or dep(pl[1]) or dep(pl[2])
        return any(dep(p) for p in pl)

    # ---- conditions: indicator atoms
    def cond(self, t):
        f = self.nf(t)
        c = self.is_num(f)
        if c is not None:
            return bool(self.q.decide(tz(c) != 0)) if not isinstance(c, Fr) else c != 0
        if len(f) == 1:
            ((m, ch), v), = f.items()
            if not ch and isinstance(v, Fr) and v == 1 and len(m) == 1 and self.atoms[m[0][0]][0] == 'ind':
                return f
        return self.sc_atom(self.atom('ind', 'nz', f))

    def cmp(self, op, a, b):
        fa, fb = self.nf(a), self.nf(b)
        ca, cb = self.is_num(fa), self.is_num(fb)
        if ca is not None and cb is not None:
            z = {'<': tz(ca) < tz(cb), '>': tz(ca) > tz(cb), '==': tz(ca) == tz(cb)}[op]
            return self.num(1) if self.q.decide(z) else {}
        d = self.add(fa, self.neg(fb))
        if op == '==':
            s, d2 = self.canonsign(d)
            if not d:
                return self.num(1)
            return self.sc_atom(self.atom('ind', '==', d2))
        if op == '>':
            d = self.neg(d)
        if not d:
            return {}
        return self.sc_atom(self.atom('ind', '<', d))

    # ---- derivations
    def der(self, f, wrt):
        out = []
        for (m, c), v in f.items():
            for n, (a, e) in enumerate(m):
                rest = m[:n] + m[n + 1:]
                # coefficient v*e, atom^(e-1)
                low = self.mono_mul(rest, ((a, cadd(e, Fr(-1))),)) if not (isinstance(e, Fr) and e == 1) else rest
                base = {(low, c): cmul(v, e)}
                out.append(self.mul(self.datom(a, True, wrt), base))
            for n, (a, e) in enumerate(c):
                pre, post = c[:n], c[n + 1:]
                L = {(m, pre): v} if pre else {(m, ()): v}
                R = {((), post): Fr(1)} if post else {((), ()): Fr(1)}
                d = self.datom(a, False, wrt)
                if not isinstance(e, Fr):
                    for x in (1, -1, 2, -2, 3, -3, 4, -4):
                        if self.q.entails(e == x):
                            e = Fr(x)
                            break
                if isinstance(e, Fr) and e == 1:
                    mid = d
                elif isinstance(e, Fr) and e == -1:
                    A = self.ch_atom(a, Fr(-1))
                    mid = self.neg(self.mul(A, self.mul(d, A)))
                elif isinstance(e, Fr) and e.denominator == 1 and 0 < abs(e) <= 4:
                    p = abs(int(e))
                    mids = []
                    for k in range(p):
                        x = d
                        if k:
                            x = self.mul(self.ch_atom(a, Fr(k)), x)
                        if p - 1 - k:
                            x = self.mul(x, self.ch_atom(a, Fr(p - 1 - k)))
                        mids.append(x)
                    mid = self.add(*mids)
                    if e < 0:
                        A = self.ch_atom(a, e)
                        mid = self.neg(self.mul(A, self.mul(mid, A)))
                elif self.q.entails(tz(e) < 0):
                    A = self.ch_atom(a, e)
                    mid = self.neg(self.mul(A, self.mul(self.ch_atom(self.atom('Dpow', a, cneg(e), wrt)), A)))
                else:
                    mid = self.ch_atom(self.atom('Dpow', a, e, wrt))
                out.append(self.mul(self.mul(L, mid), R))
        return self.add(*out) if out else {}

    def datom(self, a, sc, wrt):
        k, pl = self.atoms[a]
        if k == 'fn':
            name, args = pl
            if not sc:
                raise Bail('derivative of an element-wise function of a matrix')
            if len(args) == 1:
                u = args[0]
                du = self.der(u, wrt)
                return self.mul(self.dfn(name, u, a), du)
            y, x = args
            dy, dx = self.der(y, wrt), self.der(x, wrt)
            n2 = self.add(self.mul(x, x), self.mul(y, y))
            return self.mul(self.add(self.mul(dy, x), self.neg(self.mul(y, dx))), self.pownf(n2, Fr(-1), True))
        if k == 'base':
            return self.der(pl[0], wrt)
        if k == 'dot':
            return self.wrapdot(self.der({((), pl[0]): Fr(1)}, wrt))
        if k == 'el':
            d = self.der({((), pl[0]): Fr(1)}, wrt)
            return self.elnf(d, pl[1], pl[2])
        if k == 'T':
            return self.transpose(self.datom(pl[0], False, wrt))
        if k in ('eye', 'ones'):
            return {}
        if k == 'ind':
            return {}
        if k == 'skew':
            d = self.der(pl[0], wrt)
            return self.ch_skew(d)
        if k in ('obj', 'D'):
            if k == 'obj' and self.q.constant(pl[0], wrt):
                return {}
            if k == 'obj' and isinstance(wrt, tuple) and wrt[0] == 'obj' and self.q.rep(wrt[1]) is self.q.rep(pl[0]) and sc:
                return self.num(1)
            return self.vec_atom(self.atom('D', a, wrt), sc)
        if k == 'sum':
            raise Bail('derivative of a sum atom')
        return self.vec_atom(self.atom('D', a, wrt), sc)

    def ch_skew(self, d):
        # skew is linear in its argument
        out = []
        for (m, c), v in d.items():
            g = {((), c): Fr(1)}
            s, g2 = self.canonsign(g)
            out.append({(m, ((self.atom('skew', g2), Fr(1)),)): cmul(v, s)})
        return self.add(*out) if out else {}

    def dfn(self, name, u, a):
        if name == 'sin':
            return self.fnf('cos', [u], True)
        if name == 'cos':
            return self.neg(self.fnf('sin', [u], True))
        if name == 'tan':
            return self.pownf(self.fnf('cos', [u], True), Fr(-2), True)
        if name in ('asin', 'acos'):
            r = self.pownf(self.add(self.num(1), self.neg(self.mul(u, u))), Fr(-1, 2), True)
            return r if name == 'asin' else self.neg(r)
        if name == 'atan':
            return self.pownf(self.add(self.num(1), self.mul(u, u)), Fr(-1), True)
        if name == 'abs':
            return self.fnf('sign', [u], True)
        if name == 'sign':
            return {}
        raise Bail('derivative of ' + name)

    # ---- substitution homomorphism sub(x): evaluates x with the old symbol bound to the new value
    def subst(self, t):
        k = t[0]
        if k == 'obj':
            o = self.q.rep(t[1])
            u = self.q.unfold(o)
            if u is not None:
                return self.subst(u)
            s = self.q.subst_obj(o)
            if s is not None:
                return self.nf(s)
            return self.vec_atom(self.atom('sub', o), self.scalar(('obj', o)))
        if k in ('num', 'zero', 'eye'):
            return self.nf(t)
        r = self.q.submap(t)
        return self.nf(r)

    def show(self, f):
        def at(a):
            k, pl = self.atoms[a]
            return '%s(%s)' % (k, ','.join(self.show(p) if isinstance(p, dict) else ('[' + ','.join(self.show(x) if isinstance(x, dict) else str(x) for x in p) + ']' if isinstance(p, tuple) and k != 'dot' and k != 'el' else str(p)) for p in pl))
        if not f:
            return '0'
        return ' + '.join('%s%s%s' % (v if isz(v) or v != 1 or not (m or c) else '', ''.join('*%s%s' % (at(a), '' if isinstance(e, Fr) and e == 1 else '^%s' % e) for a, e in m), ''.join('.%s%s' % (at(a), '' if isinstance(e, Fr) and e == 1 else '^%s' % e) for a, e in c)) for (m, c), v in f.items())
