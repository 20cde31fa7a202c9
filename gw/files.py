"""Reads and executes the files the writers produce."""
import os, re, ast, ctypes, subprocess, sys, math, types
import numpy as np
import lang
from printcheck import Num, Skip
from lang import V as Val, MeaningErr, SyntaxErr


class Bad(Exception):
    """the file is wrong"""


def read(fn):
    if not os.path.exists(fn):
        return None
    return open(fn, encoding='latin-1').read().replace('\r', '')


# ------------------------------------------------------------------ Python
def once(txt, what):
    """every name is assigned once per function; keys of dictionaries once"""
    tree = ast.parse(txt)
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            seen = set()
            for st in f.body:
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name):
                                if x.id in seen:
                                    raise Bad('%s: %s assigned twice in %s' % (what, x.id, f.name))
                                seen.add(x.id)
        if isinstance(f, ast.Dict):
            ks = [k.value for k in f.keys if isinstance(k, ast.Constant)]
            if len(ks) != len(set(ks)):
                raise Bad('%s: repeated keys %s' % (what, ks))


class Py:
    key = 'py'

    def __init__(self, s, d, name):
        self.s, self.d, self.name = s, d, name
        sys.path.insert(0, d)
        self.mods = {}
        for part in ('sensors', 'der_state', 'visual'):
            t = read('%s/%s_%s.py' % (d, name, part))
            if t is None:
                continue
            once(t, part)
            m = types.ModuleType('%s_%s' % (name, part))
            sys.modules[m.__name__] = m
            exec(compile(t, m.__name__, 'exec'), m.__dict__)
            self.mods[part] = m

    def defaults(self):
        out = {}
        for part, m in self.mods.items():
            for k, v in getattr(m, '_inputs', {}).items():
                out.setdefault(k, []).append(np.asarray(v, float))
        return out

    def run(self, y, time, inputs):
        out = {}
        mi = {k: (np.matrix(v) if isinstance(v, np.ndarray) else v) for k, v in inputs.items()}
        for part, m in self.mods.items():
            if hasattr(m, '_inputs'):
                getattr(m, self.name + '_setInputs')({k: v for k, v in mi.items() if k in m._inputs})
        m = self.mods.get('der_state')
        if m:
            out['yd'] = np.asarray(getattr(m, self.name + '_der_state')(time, np.array(y)), float)
        m = self.mods.get('sensors')
        if m:
            out.update(getattr(m, self.name + '_sensors')(time, np.array(y)))
        m = self.mods.get('visual')
        if m:
            out.update(getattr(m, self.name + '_visual')(np.array(y)))
        return out


# ------------------------------------------------------------------ C
def cdecls(t, fn):
    m = re.search(r'int\s+%s\s*\(([^)]*)\)' % re.escape(fn), t)
    if not m:
        raise Bad('no function ' + fn)
    ps = []
    for p in m.group(1).split(','):
        q = re.match(r'\s*double\s*(\*?)\s*(\w+)\s*((?:\[\d+\])*)\s*$', p)
        if not q:
            raise Bad('parameter %r of %s' % (p.strip(), fn))
        ps.append((q.group(2)[4:] if q.group(1) and q.group(2).startswith('res_') else q.group(2), bool(q.group(1)), tuple(int(x) for x in re.findall(r'\d+', q.group(3)))))
    if len({p[0] for p in ps}) != len(ps):
        raise Bad('parameters of %s listed more than once: %s' % (fn, [p[0] for p in ps]))
    return ps


class C:
    key = 'c'

    def __init__(self, s, d, name):
        self.s, self.d, self.name = s, d, name
        self.fns = {}
        for part in ('der_state', 'sensors', 'visual'):
            fn = '%s/%s_%s.c' % (d, name, part)
            t = read(fn)
            if t is None:
                continue
            so = fn[:-2] + '.so'
            r = subprocess.run(['gcc', '-O0', '-w', '-ftrivial-auto-var-init=pattern', '-shared', '-fPIC', '-D__declspec(x)=', fn, '-o', so, '-lm'], capture_output=True, text=True)
            if r.returncode and 'Raising a negative REAL' in r.stderr:
                raise Skip('known finding: the text of integer powers is pinned by the tests; gfortran folds a negative constant base')
            if r.returncode:
                raise Bad('%s does not compile: %s' % (os.path.basename(fn), '; '.join(r.stderr.splitlines()[1:4])))
            self.fns[part] = (getattr(ctypes.CDLL(so), '%s_%s' % (name, part)), cdecls(t, '%s_%s' % (name, part)))

    def defaults(self):
        return {}

    def run(self, y, time, inputs):
        out = {}
        D = ctypes.POINTER(ctypes.c_double)
        for part, (f, ps) in self.fns.items():
            args, keep = [], {}
            for n, ptr, dims in ps:
                if n == 'time':
                    args.append(ctypes.c_double(time))
                elif n == 'y':
                    keep[n] = np.array(y, float)
                elif n == 'yd':
                    keep[n] = np.full(len(y), np.nan)
                elif n in inputs:
                    v = inputs[n]
                    sh = np.shape(v)
                    if dims != (sh if len(sh) < 2 or sh[1] != 1 else sh[:1]):
                        raise Bad('%s: input %s declared with dimensions %s instead of %s' % (part, n, dims, sh))
                    if dims == ():
                        args.append(ctypes.c_double(v))
                    else:
                        keep[n] = np.ascontiguousarray(v, float)
                else:
                    sh = self.s.shapes().get(n)
                    if sh is None:
                        raise Bad('%s: parameter %s is no quantity of the model' % (part, n))
                    if dims != (sh if len(sh) < 2 or sh[1] != 1 else sh[:1]) and not (sh == () and ptr):
                        raise Bad('%s: %s declared with dimensions %s instead of %s' % (part, n, dims, sh))
                    if sh == () and not ptr:
                        raise Bad('%s: result %s is passed by value' % (part, n))
                    keep[n] = np.full(sh if sh else (1,), np.nan)
                if n in keep:
                    args.append(keep[n].ctypes.data_as(D))
            f.restype = ctypes.c_int
            f(*args)
            for n, v in keep.items():
                if n not in inputs and n != 'y':
                    out[n] = v
        return out


# ------------------------------------------------------------------ Fortran
class F90:
    key = 'f90'

    def __init__(self, s, d, name):
        self.s, self.d, self.name = s, d, name
        self.fns = {}
        for part in ('der_state', 'sensors', 'visual'):
            fn = '%s/%s_%s.f90' % (d, name, part)
            t = read(fn)
            if t is None:
                continue
            so = fn[:-4] + '.so'
            r = subprocess.run(['gfortran', '-O0', '-w', '-J', d, '-finit-real=snan', '-ffree-line-length-none', '-shared', '-fPIC', d + '/functionmodule.f90', fn, '-o', so],
                               capture_output=True, text=True, cwd=d)
            if r.returncode:
                raise Bad('%s does not compile: %s' % (os.path.basename(fn), '; '.join(x for x in r.stderr.splitlines() if 'rror' in x or x.strip())[-400:]))
            h = re.search(r'subroutine\s+%s_%s\s*\(([^)]*)\)' % (name, part), t.replace('&\n', ' '), re.I)
            ps = [x.strip().lower() for x in h.group(1).split(',')]
            if len(set(ps)) != len(ps):
                raise Bad('%s: arguments listed more than once: %s' % (part, ps))
            dims = {}
            for dl in t.splitlines():
                m = re.match(r'\s*double precision(.*?)::\s*(\w+)', dl, re.I)
                if m:
                    x = re.search(r'dimension\s*\(([^)]*)\)', m.group(1), re.I)
                    dims[m.group(2).lower()] = tuple(int(v) for v in x.group(1).split(',')) if x else ()
            self.fns[part] = (getattr(ctypes.CDLL(so), ('%s_%s_' % (name, part)).lower()), ps, dims)

    def defaults(self):
        return {}

    def run(self, y, time, inputs):
        out = {}
        D = ctypes.POINTER(ctypes.c_double)
        for part, (f, ps, dims) in self.fns.items():
            args, keep = [], {}
            for n in ps:
                if n == 'time':
                    v = np.array([time])
                elif n == 'y':
                    v = np.array(y, float)
                    if dims.get('y') != (len(y), 1):
                        raise Bad('%s: y declared with dimensions %s, there are %d states' % (part, dims.get('y'), len(y)))
                elif n == 'yd':
                    v = np.full(len(y), np.nan)
                elif n in inputs:
                    sh = np.shape(inputs[n])
                    if dims.get(n) != sh:
                        raise Bad('%s: input %s declared with dimensions %s instead of %s' % (part, n, dims.get(n), sh))
                    v = np.array(inputs[n], float).flatten(order='F')
                else:
                    sh = self.s.shapes().get(n)
                    if sh is None:
                        raise Bad('%s: argument %s is no quantity of the model' % (part, n))
                    if dims.get(n) != sh:
                        raise Bad('%s: %s declared with dimensions %s instead of %s' % (part, n, dims.get(n), sh))
                    v = np.full(int(np.prod(sh)) if sh else 1, np.nan)
                keep[n] = v
                args.append(v.ctypes.data_as(D))
            f(*args)
            for n, v in keep.items():
                if n not in inputs and n not in ('y', 'time'):
                    sh = self.s.shapes().get(n, ())
                    out[n] = v.reshape(sh, order='F') if sh and n != 'yd' else v
        return out


# ------------------------------------------------------------------ interpreted ones
def nested(rows):
    return np.array([[float(np.asarray(x).reshape(-1)[0]) for x in r] for r in rows])


class Env(Num):
    """quantities already assigned"""

    def __init__(self):
        Num.__init__(self, {})
        self.vals = {}

    def symbol(self, n):
        if n not in self.vals:
            raise Bad('%s is used before it is assigned' % n)
        v = self.vals[n]
        if isinstance(v, np.ndarray):
            if np.any(np.isnan(v)):
                pass
            return Val('a', v)
        return Val('s', float(v))

    def known(self, n):
        return n in self.vals

    def velem(self, a, i):
        return self.chk(Num.velem(self, a, i))

    def elem(self, a, i, j):
        return self.chk(Num.elem(self, a, i, j))

    def chk(self, x):
        if math.isnan(x):
            raise Bad('an element is used before it is assigned')
        return x


def valueof(lg, text, env):
    lg = {'m': 'Matlab', 'mo': 'Modelica'}[lg]
    try:
        v = lang.Meaning(lg, env).go(lang.parse(lg, lang.lex(lg, text))[0])
        if v.kind == 'l':
            r = [[float(y.x) for y in x.x] if x.kind == 'l' else [float(x.x)] for x in v.x] if v.x and isinstance(v.x[0], Val) else [[float(y) for y in v.x[0]]]
            return np.array(r)
    except (SyntaxErr, MeaningErr) as e:
        raise Bad('%s: %s' % (text[:200], e))
    x = v.x
    if isinstance(x, np.ndarray) and np.any(np.isnan(x)):
        raise Bad('%s mentions something not assigned yet' % text[:200])
    return x


def put(env, shapes, n, ix, v, lg, grow=False):
    if ix is None:
        if n in env.vals and not n.startswith('temp_var_'):      # names of the writer itself
            raise Bad('%s assigned more than once' % n)
        env.vals[n] = v
        return
    i, j = ix
    if n not in env.vals:
        sh = shapes.get(n)
        if sh is None or sh == ():
            raise Bad('element of unknown quantity %s' % n)
        env.vals[n] = np.full(sh, np.nan)
    a = env.vals[n]
    if not (0 <= i < a.shape[0] and 0 <= j < a.shape[1]):
        raise Bad('%s: index %s' % (n, ix))
    if not np.isnan(a[i, j]):
        raise Bad('%s%s assigned more than once' % (n, ix))
    a[i, j] = v if not isinstance(v, np.ndarray) else v.reshape(-1)[0]


class M:
    key = 'm'

    def __init__(self, s, d, name):
        self.s, self.d, self.name = s, d, name
        self.parts = {p: read('%s/%s_%s.m' % (d, name, p)) for p in ('der_state', 'sensors', 'visual', 'inputs')}

    def statements(self, t):
        t = re.sub(r'%[^\n]*', '', t)
        t = re.sub(r'^\s*(function\b[^\n]*|end)\s*$', '', t, flags=re.M)
        return [' '.join(x.split()) for x in t.split(';\n') if x.strip()] if False else self.split(t)

    @staticmethod
    def split(t):
        out, depth, cur = [], 0, ''
        for c in t:
            if c in '([':
                depth += 1
            if c in ')]':
                depth -= 1
            if c == ';' and depth == 0:
                out.append(' '.join(cur.split()))
                cur = ''
            else:
                cur += c
        if cur.strip():
            raise Bad('statement without end: ' + cur.strip()[:80])
        return [x for x in out if x]

    def inputs(self):
        t = self.parts['inputs']
        if t is None:
            return {}
        env, I = Env(), {}
        for st in self.statements(t):
            l, r = [x.strip() for x in st.split('=', 1)]
            if st.replace(' ', '') == 'I=[]':
                continue
            if l.startswith('I.'):
                if l[2:] in I:
                    raise Bad('input %s listed twice' % l[2:])
                I[l[2:]] = valueof('m', r, env)
            else:
                put(env, {}, l, None, valueof('m', r, env), 'm')
        return I

    def defaults(self):
        return {k: [np.asarray(v, float)] for k, v in self.inputs().items()}

    def run(self, y, time, inputs):
        out = {}
        shapes = self.s.shapes()
        shapes.update({'der_' + n: sh for n, sh, v in self.s.states})
        I = self.inputs()
        for part in ('der_state', 'sensors', 'visual'):
            t = self.parts[part]
            if t is None:
                continue
            env = Env()
            yy = np.array(y, float).reshape(-1, 1)
            if part != 'visual':
                env.vals['time'] = time
            for st in self.statements(t):
                if '=' not in st:
                    raise Bad('statement %r' % st)
                l, r = [x.strip() for x in st.split('=', 1)]
                if l == 'y' or l == 'I':
                    continue
                m = re.match(r'^y\((\d+)(?::(\d+))?\)$', r)
                if m:
                    a, b = int(m.group(1)), int(m.group(2) or m.group(1))
                    if b > len(y):
                        raise Bad('%s: index out of range in %s' % (part, st))
                    put(env, shapes, l, None, float(y[a - 1]) if not m.group(2) else yy[a - 1:b], 'm')
                    continue
                if r.startswith('I.'):
                    if r[2:] not in I:
                        raise Bad('%s: %s is not provided by the inputs file' % (part, r))
                    put(env, shapes, l, None, inputs[r[2:]], 'm')
                    continue
                if l.startswith('S.') or l.startswith('V.'):
                    if l[2:] in out:
                        raise Bad('%s: %s returned twice' % (part, l))
                    out[l[2:]] = valueof('m', r, env)
                    continue
                m = re.match(r'^\[(.*)\]$', r)
                if l == 'yd':
                    ns = [x.strip() for x in m.group(1).split(';')] if m else [r]
                    out['yd'] = np.concatenate([np.asarray(valueof('m', x, env), float).reshape(-1) for x in ns])
                    continue
                v = valueof('m', r, env)
                m = re.match(r'^\[\s*([\w ,()]*)\]$', l)
                m2 = re.match(r'^(\w+)\((\d+),(\d+)\)$', l)
                if m2:
                    put(env, shapes, m2.group(1), (int(m2.group(2)) - 1, int(m2.group(3)) - 1), v, 'm')
                elif re.match(r'^\w+$', l):
                    put(env, shapes, l, None, v, 'm')
                else:
                    raise Bad('left side %r' % l)
        return out


class Mo:
    key = 'mo'
    kinds = {'State': 'state', 'Inputs': 'input', 'Parameters': 'param', 'Constants': 'const', 'Sensors': 'sensor'}

    def __init__(self, s, d, name):
        self.s, self.d, self.name = s, d, name
        t = read('%s/%s.mo' % (d, name))
        if t is None:
            raise Bad('no file')
        body = re.sub(r'//[^\n]*', '', t)
        m = re.match(r'\s*model %s\s(.*)\nequation\n(.*)end %s;\s*$' % (name, name), body, re.S)
        if not m:
            raise Bad('structure of the model')
        self.decl, self.eqs = {}, []
        for st in self.split(m.group(1).replace('protected', '')):
            if st.startswith('import'):
                continue
            q = re.match(r'^(?:(input|output|parameter|constant)\s+)?Real(\[[\d, ]*\])?\s+(\w+)\s*(\[[\d, ]*\])?\s*(\(.*?each stateSelect[^)]*\)|\(.*\))?\s*(?:=\s*(.*?))?\s*(?:"[^"]*")?$', st, re.S)
            if not q:
                raise Bad('declaration %r' % st[:120])
            pre, d1, n, d2, mod, val = q.groups()
            if d1 and d2:
                raise Bad('dimensions of %s given twice: %s' % (n, st[:100]))
            if n in self.decl:
                raise Bad('%s declared more than once' % n)
            dd = d1 or d2
            self.decl[n] = (pre, tuple(int(x) for x in dd[1:-1].split(',')) if dd else (), mod, val)
        self.eqs = self.split(m.group(2))

    @staticmethod
    def split(t):
        out, depth, cur, q = [], 0, '', False
        for c in t:
            if c == '"':
                q = not q
            if c == ';' and not q:
                out.append(' '.join(cur.split()))
                cur = ''
            else:
                cur += c
        if cur.strip():
            raise Bad('statement without end: ' + cur.strip()[:80])
        return [x for x in out if x]

    def defaults(self):
        return {}

    def want(self):
        s = self.s
        w = {n: ('input', sh) for n, sh, v in s.inputs}
        w.update({n: (None, sh) for n, sh, v in s.states})
        w.update({n: ('parameter', sh) for n, sh, t in s.params})
        w.update({n: ('constant', sh) for n, sh, t in s.consts})
        w.update({n: ('output', sh) for n, k, sh, t in s.vars if k in (0x100,)})
        return w

    def run(self, y, time, inputs):
        shapes = self.s.shapes()
        shapes.update({'der_' + n: sh for n, sh, v in self.s.states})
        want = self.want()
        env = Env()
        env.vals['time'] = time
        init = {n: v for n, sh, v in self.s.states}
        k = 0
        sts = {}
        for n, sh, v in sorted(self.s.states, key=lambda x: x[0]):
            pass
        # declarations have no order
        todo = [(n, d[3]) for n, d in self.decl.items() if d[0] in ('parameter', 'constant')]
        while todo:
            left = []
            for n, val in todo:
                if val is None:
                    raise Bad('%s has no value' % n)
                try:
                    env.vals[n] = valueof('mo', val, env)
                except Bad as x:
                    if 'before' not in str(x):
                        raise
                    left.append((n, val))
                    err = x
            if len(left) == len(todo):
                raise err
            todo = left
        for n, (pre, dd, mod, val) in self.decl.items():
            if n in shapes and dd != shapes[n] and not (len(dd) == 1 and (dd[0], 1) == shapes[n]):
                raise Bad('%s declared with dimensions %s instead of %s' % (n, dd, shapes[n]))
            if n in want and pre != want[n][0] and not (want[n][0] == 'output'):
                raise Bad('%s declared as %s' % (n, pre))
            if mod and n in init:
                q = re.search(r'start\s*=\s*(.*?),\s*each|start\s*=\s*(.*?)[,)]', mod)
                if q:
                    v = valueof('mo', q.group(1) or q.group(2), env)
                    if not np.allclose(np.asarray(v, float).reshape(-1), np.asarray(init[n], float).reshape(-1), rtol=1e-9):
                        raise Bad('start value of %s is %s instead of %s' % (n, v, init[n]))
        for n, v in inputs.items():
            env.vals[n] = v
        for n, v in self.ystates(y).items():
            env.vals[n] = v
        for n in list(inputs) + list(init):
            if n not in self.decl and any(re.search(r'\b%s\b' % n, e) for e in self.eqs):
                raise Bad('%s is not declared' % n)
        todo = list(self.eqs)
        while todo:
            left, err = [], None
            for e in todo:
                try:
                    self.equation(e, env, shapes)
                except Bad as x:
                    if 'before' in str(x) or 'not assigned yet' in str(x):
                        left.append(e)
                        err = x
                    else:
                        raise
            if len(left) == len(todo):
                raise Bad('%s (%s)' % (err, left[0][:160]))
            todo = left
        for n in env.vals:
            if not n.startswith('der_') and n != 'time' and n not in self.decl and n not in inputs and n not in init:
                raise Bad('%s is not declared' % n)
        out = {n: v for n, v in env.vals.items() if n in self.decl or n.startswith('der_')}
        return out

    def ystates(self, y):
        raise NotImplementedError

    def equation(self, e, env, shapes):
        depth = 0
        l, r = self.cut(e)
        v = valueof('mo', r, env)
        ls = self.lhs(l)
        if isinstance(ls, list):
            v = np.asarray(v, float)
            if v.shape != (len(ls), len(ls[0])):
                raise Bad('dimensions in %s' % e[:120])
            for i, row in enumerate(ls):
                for j, (n, ix) in enumerate(row):
                    put(env, shapes, n, ix, float(v[i, j]), 'mo')
        else:
            put(env, shapes, ls[0], ls[1], v, 'mo')

    @staticmethod
    def cut(e):
        d = 0
        for i, c in enumerate(e):
            if c in '([{':
                d += 1
            elif c in ')]}':
                d -= 1
            elif c == '=' and d == 0 and e[i + 1:i + 2] != '=' and e[i - 1] not in '<>=':
                return e[:i].strip(), e[i + 1:].strip()
        raise Bad('no equation: ' + e[:100])

    def lhs(self, l):
        l = l.strip()
        if l.startswith('{'):
            rows = re.findall(r'\{([^{}]*)\}', l)
            if l.startswith('{{'):
                return [[self.lhs(x) for x in self.commas(r)] for r in rows]
            return [[self.lhs(x)] for x in self.commas(l[1:-1])]
        m = re.match(r'^der\((\w+)(?:\[(\d+)(?:,\s*(\d+))?\])?\)$', l)
        pre = 'der_' if m else ''
        m = m or re.match(r'^(\w+)(?:\[(\d+)(?:,\s*(\d+))?\])?$', l)
        if not m:
            raise Bad('left side %r' % l)
        ix = None if m.group(2) is None else (int(m.group(2)) - 1, int(m.group(3) or 1) - 1)
        return (pre + m.group(1), ix)

    @staticmethod
    def commas(s):
        out, d, cur = [], 0, ''
        for c in s:
            if c in '[(':
                d += 1
            if c in '])':
                d -= 1
            if c == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
            else:
                cur += c
        return out + [cur.strip()]


class MoS(Mo):
    def ystates(self, y):
        out, k = {}, 0
        for n, sh in self.s.ordered:
            m = int(np.prod(sh)) if sh else 1
            out[n] = float(y[k]) if sh == () else np.array(y[k:k + m], float).reshape(sh)
            k += m
        return out


LANGS = {'py': Py, 'c': C, 'f90': F90, 'm': M, 'mo': MoS}
