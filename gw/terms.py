"""Random terms: their shape, their value (numpy, independent of the library) and the same term built with
the library's own operators."""
import math
import numpy as np


class T:
    __slots__ = ('op', 'k', 'sh', 'v')

    def __init__(self, op, k=(), sh=(), v=None):
        self.op, self.k, self.sh, self.v = op, list(k), sh, v

    def syms(self, out=None):
        out = set() if out is None else out
        if self.op == 'sym':
            out.add(self.v)
        for x in self.k:
            x.syms(out)
        return out

    def __str__(self):
        if self.op in ('sym', 'num'):
            return str(self.v)
        return '%s%s(%s)' % (self.op, '' if self.v is None else '<%s>' % (self.v,), ', '.join(map(str, self.k)))


class Bad(Exception):
    pass


FN = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan}


def value(t, env):
    o = t.op
    if o == 'num':
        return t.v
    if o == 'sym':
        return env(t.v)
    if o == 'if':
        a, b = value(t.k[0], env), value(t.k[1], env)
        c = {'<': a < b, '>': a > b}[t.v]
        if abs(a - b) < 1e-6:
            raise Bad('branch')
        return value(t.k[2] if c else t.k[3], env)
    k = [value(x, env) for x in t.k]
    if o == 'add':
        return k[0] + k[1]
    if o == 'sub':
        return k[0] - k[1]
    if o == 'neg':
        return -k[0]
    if o == 'mul':
        if isinstance(k[0], np.ndarray) and isinstance(k[1], np.ndarray):
            r = k[0] @ k[1]
            return float(r[0, 0]) if t.sh == () else r
        return k[0] * k[1]
    if o == 'div':
        return k[0] / k[1]
    if o == 'pow':
        if t.v < 0 and abs(k[0]) < 1e-3 or t.v != int(t.v) and k[0] < 1e-6:
            raise Bad('pow')
        return k[0] ** t.v
    if o == 'fn':
        if t.v in ('asin', 'acos') and abs(k[0]) > 0.999:
            raise Bad('asin')
        return FN[t.v](k[0])
    if o == 'abs':
        return abs(k[0])
    if o == 'sign':
        if abs(k[0]) < 1e-6:
            raise Bad('sign')
        return float(np.sign(k[0]))
    if o == 'atan2':
        if abs(k[0]) + abs(k[1]) < 1e-3:
            raise Bad('atan2')
        return math.atan2(k[0], k[1])
    if o == 'elem':
        return float(k[0][t.v])
    if o == 'mat':
        return np.array(k, float).reshape(t.sh)
    if o == 'T':
        return k[0].T
    if o == 'skew':
        a, b, c = k[0].flatten()
        return np.array([[0, -c, b], [c, 0, -a], [-b, a, 0.]])
    if o == 'outer':
        return k[0] @ k[1].T
    if o in ('solve', 'inv'):
        if np.linalg.cond(k[0]) > 1e5:
            raise Bad('cond')
        return np.linalg.inv(k[0]) if o == 'inv' else np.linalg.solve(k[0], k[1])
    raise AssertionError(o)


def build(t, sym, S):
    """with the library (module S = pymbs.symbolics)"""
    o = t.op
    if o == 'num':
        return t.v
    if o == 'sym':
        return sym(t.v)
    k = [build(x, sym, S) for x in t.k]
    if o == 'if':
        return S.If((S.Less if t.v == '<' else S.Greater)(k[0], k[1]), k[2], k[3])
    if o == 'add':
        return k[0] + k[1]
    if o == 'sub':
        return k[0] - k[1]
    if o == 'neg':
        return -k[0]
    if o == 'mul':
        return k[0] * k[1]
    if o == 'div':
        return k[0] / k[1]
    if o == 'pow':
        return k[0] ** t.v
    if o == 'fn':
        return getattr(S, t.v)(k[0])
    if o == 'abs':
        return abs(k[0])
    if o == 'sign':
        return S.sign(k[0])
    if o == 'atan2':
        return S.atan2(k[0], k[1])
    if o == 'elem':
        return k[0][t.v] if t.k[0].sh[1] > 1 or t.v[1] else k[0][t.v[0]]
    if o == 'mat':
        r, c = t.sh
        if c == 1:
            return S.Matrix(k)
        return S.Matrix([[k[i * c + j] for j in range(c)] for i in range(r)])
    if o == 'T':
        return S.transpose(k[0])
    if o == 'skew':
        return S.skew(k[0])
    if o == 'outer':
        return S.outer(k[0], k[1])
    if o == 'solve':
        return S.solve(k[0], k[1])
    if o == 'inv':
        return S.inv(k[0])
    raise AssertionError(o)


NUMS = [1, 2, 3, -1, -2, 0.5, 1.25, -0.75, 2.5, 7, 0, 10, 1e-3, -4]


class Gen:
    def __init__(self, rng, table, ops=frozenset()):
        self.r, self.tab, self.ops = rng, table, ops    # table: name -> shape of what may be referred to

    def num(self):
        return T('num', v=self.r.choice(NUMS))

    def leaf(self, sh, allownum=True):
        c = [n for n, s in self.tab.items() if s == sh]
        if c and (self.r.random() < 0.85 or not allownum):
            return T('sym', sh=sh, v=self.r.choice(c))
        if sh == ():
            c = [(n, s) for n, s in self.tab.items() if s != ()]
            if c and self.r.random() < 0.6:
                n, s = self.r.choice(c)
                return T('elem', [T('sym', sh=s, v=n)], (), (self.r.randrange(s[0]), self.r.randrange(s[1])))
            if not allownum:
                c = [n for n, s in self.tab.items() if s == ()]
                if c:
                    return T('sym', v=self.r.choice(c))
            return self.num()
        return T('mat', [self.leaf(()) for _ in range(sh[0] * sh[1])], sh)

    def safe(self, x):
        """bounded away from zero"""
        return T('add', [T('mul', [x, x]), T('num', v=1.5)])

    def gen(self, sh, d):
        r = self.r
        if d <= 0 or r.random() < 0.12:
            return self.leaf(sh)
        g = lambda s=sh: self.gen(s, d - 1)
        if sh == ():
            w = r.random()
            if w < 0.2:
                return T('add', [g(), g()])
            if w < 0.3:
                return T('sub', [g(), g()])
            if w < 0.5:
                return T('mul', [g(), g()])
            if w < 0.56:
                return T('neg', [g()])
            if w < 0.62:
                return T('div', [g(), self.safe(self.leaf((), False))])
            if w < 0.68:
                return T('pow', [self.leaf((), False)], v=r.choice([2, 3]))
            if w < 0.70:
                return T('pow', [self.safe(self.leaf((), False))], v=r.choice([0.5, -1, -2]))
            if w < 0.82:
                return T('fn', [self.gen((), d - 2)], v=r.choice(['sin', 'cos', 'atan', 'sin', 'cos']))
            if w < 0.84:
                return T('fn', [T('mul', [T('num', v=0.5), T('fn', [self.leaf((), False)], v='sin')])], v=r.choice(['asin', 'acos', 'tan']))
            if w < 0.86:
                return T('atan2', [self.leaf((), False), self.safe(self.leaf((), False))])
            if w < 0.88:
                return T('abs', [g()])
            if w < 0.89 and 'sign' in self.ops:
                return T('sign', [self.leaf((), False)])
            if w < 0.91 and 'if' in self.ops:
                return T('if', [self.leaf((), False), self.leaf(()), g(), g()], v=r.choice('<>'))
            if w < 0.96:
                n = r.choice([2, 3])
                a = self.leaf((n, 1))
                return T('mul', [T('T', [self.leaf((n, 1))], (1, n)), a])
            s = r.choice([(2, 1), (3, 1), (2, 2), (3, 3)])
            x = self.leaf(s)
            return T('elem', [x], (), (r.randrange(s[0]), r.randrange(s[1])))
        w = r.random()
        if w < 0.2:
            return T('add', [g(), g()], sh)
        if w < 0.3:
            return T('sub', [g(), g()], sh)
        if w < 0.42:
            k = [self.gen((), d - 2), g()]
            r.shuffle(k)
            return T('mul', k, sh)
        if w < 0.48:
            return T('neg', [g()], sh)
        if w < 0.52:
            return T('div', [g(), self.safe(self.leaf((), False))], sh)
        if w < 0.72:
            n = r.choice([2, 3])
            if sh[1] == 1:
                n = sh[0] if r.random() < 0.8 else n
                return T('mul', [self.gen((sh[0], n), d - 2), self.gen((n, 1), d - 1)], sh)
            if sh[0] == sh[1] == 3 and r.random() < 0.35 and 'skew' in self.ops:
                return T('skew', [self.gen((3, 1), d - 1)], sh)
            if r.random() < 0.3:
                return T('mul', [self.gen((sh[0], 1), d - 2), T('T', [self.leaf((sh[1], 1))], (1, sh[1]))], sh)
            return T('mul', [self.gen((sh[0], n), d - 2), self.gen((n, sh[1]), d - 2)], sh)
        if w < 0.78 and sh[1] > 1:
            return T('T', [self.gen((sh[1], sh[0]), d - 1)], sh)
        return T('mat', [self.gen((), d - 2) for _ in range(sh[0] * sh[1])], sh)
