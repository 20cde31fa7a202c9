"""Bounded part of C01: random expressions, printed by the real printers, read back with the target
language's grammar and evaluated; compared with the value of the expression."""
import sys, os, re, subprocess, tempfile, math, warnings
import multiprocessing as mp
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'cxxvc'))
import numpy as np
import lang
from lang import V as Val, MeaningErr, SyntaxErr


class Skip(Exception):
    pass


def ok(x):
    if not np.all(np.isfinite(x)) or np.any(np.abs(x) > 1e8):
        raise Skip()
    return x


class Num:
    """numbers and two-dimensional arrays"""

    def __init__(self, env):
        self.env = env

    def num(self, s):
        return float(s)

    def symbol(self, n):
        for c in (n, n[1:] if n[:1] in 'MF' else n):
            if c in self.env:
                nd, a = self.env[c]
                return Val('s', float(a[0, 0])) if nd == 0 else Val('a', a)
        # FMU element references
        p = n.split('_')
        for k in range(len(p) - 1, 0, -1):
            b = '_'.join(p[:k])
            if b in self.env:
                nd, a = self.env[b]
                ix = [int(x) for x in p[k:]]
                if nd == 1 and len(ix) == 1:
                    return Val('s', float(a.flatten()[ix[0]]))
                if nd == 2 and len(ix) == 2:
                    return Val('s', float(a[ix[0], ix[1]]))
        raise MeaningErr('unknown symbol ' + n)

    def known(self, n):
        return n in self.env or n[1:] in self.env

    def neg(self, a): return -a
    def add(self, a, b): return a + b
    def sub(self, a, b): return a - b
    def mul(self, a, b): return ok(a * b) if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) else ok(a @ b)
    def conform(self, a, b): return a.shape[1] == b.shape[0]
    def sameshape(self, a, b): return a.shape == b.shape
    def one(self, a): return not isinstance(a, np.ndarray) or a.shape == (1, 1)
    def pick(self, a): return float(a[0, 0]) if isinstance(a, np.ndarray) else a
    def vec(self, a): return 1 in a.shape
    def velem(self, a, i):
        if not 0 <= i < a.size:
            raise MeaningErr('index %d' % i)
        return float(a.flatten()[i])

    def elem(self, a, i, j):
        if not (0 <= i < a.shape[0] and 0 <= j < a.shape[1]):
            raise MeaningErr('index %d,%d of %s' % (i, j, a.shape))
        return float(a[i, j])

    def integer(self, x):
        if x != int(x):
            raise MeaningErr('index')
        return int(x)

    conc = staticmethod(int)
    def cmp(self, op, a, b):
        if abs(a - b) < 1e-9 * (1 + abs(a)) and a != b:
            raise Skip()
        return float({'<': a < b, '>': a > b, '==': a == b}[op])
    def ifc(self, c, a, b): return a if c else b
    def mat(self, rows):
        if len({len(r) for r in rows}) != 1:
            raise MeaningErr('rows of different lengths')
        return np.array([[float(np.asarray(x).reshape(-1)[0]) for x in r] for r in rows])
    def zeros(self, a, b): return np.zeros((a, b))
    def T(self, a): return a.T
    def inv(self, a):
        if a.shape[0] != a.shape[1]:
            raise MeaningErr('inverse of a non-square array')
        if np.linalg.cond(a) > 1e5:
            raise Skip()
        return np.linalg.inv(a)

    def solve(self, a, b):
        if a.shape[0] != a.shape[1] or b.shape[0] != a.shape[0]:
            raise MeaningErr('solve of arrays that do not conform')
        if np.linalg.cond(a) > 1e5:
            raise Skip()
        return np.linalg.solve(a, b)

    def mpow(self, a, n):
        if n != int(n):
            raise MeaningErr('power of a matrix')
        if n < 0 and np.linalg.cond(a) > 1e5:
            raise Skip()
        return ok(np.linalg.matrix_power(a, int(n)))

    def powi(self, a, n): return self.pow(a, n)
    def pow(self, a, b):
        if (a < 0 and b != int(b)) or (abs(a) < 1e-9 and b <= 0):
            raise Skip()
        return ok(a ** b)

    def skew(self, a):
        if a.size != 3:
            raise MeaningErr('skew')
        x, y, z = a.flatten()
        return np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])

    def fn(self, f, a):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if f == 'sign' or f == 'abs':
                if np.any((np.abs(a) < 1e-9) & (np.asarray(a) != 0)):
                    raise Skip()
            if f in ('asin', 'acos') and np.any(np.abs(a) > 1 - 1e-9):
                raise Skip()
            r = {'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'asin': np.arcsin, 'acos': np.arccos, 'atan': np.arctan, 'abs': np.abs, 'sign': np.sign}[f](a)
        ok(r)
        return r if isinstance(a, np.ndarray) else float(r)

    def atan2(self, y, x):
        if abs(y) < 1e-9 and x <= 1e-9:
            raise Skip()
        return math.atan2(y, x)

    def fsign(self, a, b):
        return math.copysign(abs(a), b)

    def operand(self, o):
        raise MeaningErr('operand')


def evaluate(l, text, env, N=Num):
    t, closed = lang.parse(l, lang.lex(l, text))
    v = lang.Meaning(l, N(env)).val(t)
    return v, closed


def compare(l, text, env, want, N=Num):
    """None if the text denotes the value (nd, array)"""
    nd, a = want
    try:
        v, closed = evaluate(l, text, env, N)
    except Skip:
        return None
    except (SyntaxErr, MeaningErr) as x:
        return 'is not valid: %s' % x
    except (TypeError, AttributeError, ValueError, IndexError) as x:
        return 'harness: %r' % (x,)
    except (ZeroDivisionError, OverflowError, np.linalg.LinAlgError, FloatingPointError):
        return None
    if v.kind == 'l':
        # initialisers and row lists
        rows = [[float(y.x) for y in x.x] if x.kind == 'l' else [float(x.x)] for x in v.x] if v.x and isinstance(v.x[0], Val) else [[float(y) for y in v.x[0]]]
        if l in ('C', 'FMU', 'CSharp') and len(rows) == 1 and rows[0] == [0.0] and l != 'CSharp':
            got = np.zeros(a.shape)
        else:
            got = np.array(rows)
            if nd == 1 and l in ('C', 'FMU', 'CSharp'):
                got = got.reshape(a.shape) if got.size == a.size else got
            if l == 'Python':
                return 'is a list'
    elif v.kind == 'a':
        if nd == 0:
            return 'is an array where a number is required'
        got = v.x
    elif v.kind in ('s', 'b'):
        if nd != 0 and not (l in ('Matlab', 'MatlabSym') and a.size == 1):
            if l == 'CSharp' and v.x == 0 and not a.any():
                return None
            return 'is a number where an array is required'
        got = np.array([[v.x]])
        if not closed and text.strip() and l:
            return 'is not an operand that may be used inside another expression'
    else:
        return 'is a row'
    if got.shape != a.shape:
        return 'has dimensions %s instead of %s' % (got.shape, a.shape)
    try:
        ok(got)
    except Skip:
        return None
    if np.max(np.abs(got - a) / (1 + np.abs(a) + np.abs(got))) > 1e-6:
        return 'has the value %s instead of %s' % (got.tolist(), a.tolist())
    return None


def rdv(w, i):
    nd, r, c = int(w[i]), int(w[i + 1]), int(w[i + 2])
    a = np.array([float(x) for x in w[i + 3:i + 3 + r * c]]).reshape(r, c)
    return (nd, a), i + 3 + r * c


def job(a):
    drv, start, count, maxfail, term = a
    f = tempfile.NamedTemporaryFile(prefix='verif_pr_', suffix='.txt', delete=False)
    f.close()
    fails, n, texts, langs = [], 0, 0, {}
    try:
        cmd = [drv] + (['term', 'print', str(start), str(count)] + term if term else ['print', str(start), str(count), '50'])
        fd = os.open(f.name, os.O_WRONLY | os.O_APPEND)
        p = subprocess.Popen(['bash', '-c', 'exec 3>>"$0"; exec "$@"', f.name] + cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        out, _ = p.communicate()
        os.close(fd)
        for l in out.splitlines():
            if l.startswith('FAIL'):
                fails.append(l)
        case, envs, vals = None, [], []
        for l in open(f.name, errors='replace'):
            w = l.split()
            if not w:
                continue
            if w[0] == 'CASE':
                case, envs, vals = w, [], []
                n += 1
            elif w[0] == 'ENV':
                e, i = {}, 1
                while i < len(w):
                    nm = w[i]
                    e[nm], i = rdv(w, i + 1)
                envs.append(e)
            elif w[0] == 'VAL':
                vals.append(rdv(w, 1)[0])
            elif w[0] == 'TXT':
                text = bytes.fromhex(w[2]).decode('latin-1') if w[2] != '-' else ''
                texts += 1
                langs[w[1]] = langs.get(w[1], 0) + 1
                if text.startswith('THROW '):
                    fails.append('FAIL print %s %s | %s : the %s printer threw %s' % (case[1], w[1], bytes.fromhex(case[2]).decode('latin-1'), w[1], text[6:]))
                    continue
                for e, v in zip(envs, vals):
                    m = compare(w[1], text, e, v)
                    if m and not listed(w[1], text, e, v, m):
                        fails.append('FAIL print %s %s | %s : %s text %s %s' % (case[1], w[1], bytes.fromhex(case[2]).decode('latin-1'), w[1], repr(text), m))
                        break
            if len(fails) >= maxfail:
                break
    finally:
        os.unlink(f.name)
    return fails, n, texts, langs


def listed(l, text, env, want, m):
    """the findings listed in known_findings.txt for C01"""
    if l == 'Modelica' and m.endswith('number plus array'):
        return True
    if l == 'CSharp' and m.endswith('condition is not a truth value') and re.search(r'\((1|0) \?', text):
        return True
    if l == 'Fortran' and 'sign(1d0' in text:
        class Z(Num):
            def fsign(self, a, b):
                return 0.0 if b == 0 else math.copysign(abs(a), b)
        return compare(l, text, env, want, Z) is None
    return False


def run(drv, start, count, jobs=8, maxfail=3, term=None):
    per = (count + jobs - 1) // jobs
    with mp.Pool(jobs) as pool:
        rs = pool.map(job, [(drv, start + j * per, per, maxfail, term) for j in range(jobs)])
    fails = [f for r in rs for f in r[0]]
    langs = {}
    for r in rs:
        for k, v in r[3].items():
            langs[k] = langs.get(k, 0) + v
    return fails, sum(r[1] for r in rs), sum(r[2] for r in rs), langs


if __name__ == '__main__':
    f, n, t, ls = run(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), maxfail=int(sys.argv[4]) if len(sys.argv) > 4 else 3)
    for x in f[:40]:
        print(x)
    print(n, t, ls)
