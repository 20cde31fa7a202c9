"""G01, G02: the order and the values of what Graph.getAssignments returns."""
import math
import numpy as np
from system import *
from terms import Bad

NS = {k: getattr(math, k) for k in ('sin', 'cos', 'tan', 'sqrt', 'pi')}
NS.update(atan=math.atan, atan2=math.atan2, asin=math.asin, acos=math.acos, sign=lambda x: float(np.sign(x)),
          matrix=np.matrix, linalg=np.linalg, zeros=np.zeros, abs=abs, bmat=np.bmat)


class Fail(Exception):
    def __init__(self, pid, msg):
        Exception.__init__(self, msg)
        self.pid = pid


def mx(v):
    return np.matrix(v) if isinstance(v, np.ndarray) else float(v)


def split_lhs(l):
    """names of what is assigned: 'a', ('a', i, j); a matrix of such"""
    l = l.strip()
    if l.startswith('matrix('):
        rows = eval(l, {'__builtins__': {}}, Names(matrix=lambda x, dtype=None: x, float=None))
        return [[split_lhs(str(y)) for y in x] for x in rows]
    if '[' in l:
        n, r = l.split('[')
        i, j = r.rstrip(']').split(',')
        return (n, int(i), int(j))
    return l


class Name:
    def __init__(self, n):
        self.n = n

    def __getitem__(self, ix):
        return Name('%s[%d,%d]' % (self.n, ix[0], ix[1]))

    def __str__(self):
        return self.n


class Names(dict):
    def __missing__(self, k):
        return Name(k)


def run(assign, given, shapes, want, requested, ctx):
    """assign: list of (lhs text, rhs text, atoms)"""
    env = {}
    done = set()
    for n, v in given.items():
        env[n] = mx(v)
    known = set(given)

    def put(l, v):
        if isinstance(l, list):
            v = np.asarray(v)
            if v.shape != (len(l), len(l[0])):
                raise Fail('G02', 'sizes in a multiple assignment: %s' % (v.shape,) + ctx)
            for i, row in enumerate(l):
                for j, x in enumerate(row):
                    put(x, float(v[i, j]))
            return
        if isinstance(l, tuple):
            n, i, j = l
            if n in known or (n in done) or l in done:
                raise Fail('G01', '%s assigned more than once' % (l,) + ctx)
            done.add(l)
            if n not in env:
                sh = shapes.get(n, shapes.get(n[4:]))
                env[n] = np.matrix(np.full(sh, np.nan))
            env[n][i, j] = v if not isinstance(v, np.ndarray) else v[0, 0]
            return
        if l in known or l in done or any(isinstance(d, tuple) and d[0] == l for d in done):
            raise Fail('G01', '%s assigned more than once' % l + ctx)
        done.add(l)
        sh = shapes.get(l, shapes.get(l[4:] if l.startswith('der_') else l))
        if sh is None and not ctx.startswith(' (optimize=True'):
            raise Fail('G01', 'assignment to the unknown quantity %s' % l + ctx)
        if sh is not None and isinstance(v, np.ndarray) != (sh != ()) or sh is not None and isinstance(v, np.ndarray) and v.shape != sh:
            if np.size(v) == 1 and sh == ():
                v = float(np.asarray(v).flatten()[0])
            elif np.size(v) == 1 and isinstance(v, (int, float)) and sh != ():
                v = np.matrix(np.full(sh, float(v)))
            else:
                raise Fail('G02', 'shape of %s: %s instead of %s' % (l, np.shape(v), sh) + ctx)
        env[l] = v

    for ls, rs, atoms in assign:
        for l, r in zip(ls, rs):
            try:
                v = eval(r, NS, env)
            except NameError as e:
                raise Fail('G01', '%s = %s: %s at this place of the order%s' % (l, r, e, ctx))
            except (ValueError, ArithmeticError, np.linalg.LinAlgError) as e:
                if any(np.any(np.isnan(x)) for x in env.values()):
                    raise Fail('G01', '%s = %s mentions something not assigned yet%s' % (l, r, ctx))
                raise Fail('G02', '%s = %s: %s%s' % (l, r, e, ctx))
            if np.any(np.isnan(v)):
                raise Fail('G01', '%s = %s mentions something not assigned yet%s' % (l, r, ctx))
            put(split_lhs(l), v)
    for n in requested:
        if n not in env or np.any(np.isnan(env[n])):
            raise Fail('G01', '%s was requested and is not assigned%s' % (n, ctx))
    for n in requested:
        close('G02', n, env[n], want[n], ctx)
    for n in env:
        if n in want and n in shapes:
            close('G02', n, env[n], want[n], ctx)


def close(pid, n, got, want, ctx):
    a, b = np.asarray(got, float), np.asarray(want, float)
    if a.shape != b.shape and a.size == b.size:
        a = a.reshape(b.shape)
    if a.shape != b.shape or not np.all(np.abs(a - b) <= 1e-6 * (1 + np.abs(b))):
        raise Fail(pid, '%s is %s instead of %s%s' % (n, got, want, ctx))


def texts(x):
    f = lambda y: [str(z) for z in y] if isinstance(y, (list, tuple)) else [str(y)]
    return f(x.lhs), f(x.rhs), None


PROF = dict(ops=['if', 'sign', 'skew'], solve='any', groups=True, xstate=True, vistime=True, sensref=True,
            nvars=[1, 2, 3, 4, 5, 6, 8, 12, 20], recent=True)


def case(seed, S, scalar=None):
    rng = random.Random(seed)
    prof = dict(PROF)
    if rng.random() < 0.5:
        prof['recent'] = False
    s = make(rng, prof)
    base = {n: v for n, sh, v in s.inputs}
    base.update({n: rv(rng, sh) for n, sh, v in s.states})
    base['time'] = 0.731
    try:
        want = s.values(base)
    except Bad:
        return None
    g = install(s, S, rng)
    opt = rng.random() < 0.65
    ctx = ' (optimize=%s)\n  %s' % (opt, '\n  '.join(s.show()))
    try:
        g.buildGraph(opt)
        reqs = [DER, SENSOR, GRAPHIC, USER, DER | SENSOR | GRAPHIC]
        rng.shuffle(reqs)
        given = dict(base)
        given.update({n: want[n] for n, sh, t in s.params + s.consts})
        for m in reqs[:3]:
            a = [texts(x) for x in g.cgraph.getAssignments(m)]
            req = (['der_' + n for n, sh, v in s.states] if m & DER else []) + [n for n, k, sh, t in s.vars if k & m]
            run(a, given, s.shapes(), want, req, ctx)
    except S.symbolics.Error as e:
        raise Fail('G01', 'refused: %s%s' % (e, ctx))
    return True


def cyclic(seed, S):
    """a definition that needs itself is refused"""
    rng = random.Random(seed)
    s = make(rng, dict(PROF, nvars=[2, 3, 4, 6, 8], recent=True))
    vs = [i for i, (n, k, sh, t) in enumerate(s.vars) if t is not None and k != GRAPHIC]
    if len(vs) < 1:
        return None
    n = rng.choice([1, 2, 3, 4])
    ring = rng.sample(vs, min(n, len(vs)))
    if len(ring) == 1:
        # an equation that mentions its own symbol is refused when it is added; make a pair
        nm, k, sh, t = s.vars[ring[0]]
        s.vars.append(('y0', VAR, sh, T('mul', [T('num', v=2), T('sym', sh=sh, v=nm)], sh)))
        ring.append(len(s.vars) - 1)
    for a, b in zip(ring, ring[1:] + ring[:1]):
        nm, k, sh, t = s.vars[a]
        n2, _, sh2, _ = s.vars[b]
        x = T('sym', sh=sh2, v=n2)
        if sh2 != ():
            x = T('elem', [x], (), (rng.randrange(sh2[0]), rng.randrange(sh2[1])))
        x = T('mul', [num(1.3719), x])        # nothing of the definition cancels it
        if sh == ():
            t = T('add', [t, x])
        else:
            t = T('add', [t, T('mul', [x, num(np.ones(sh))], sh)], sh)
        s.vars[a] = (nm, k, sh, t)
    # something requested needs the ring
    nm, k, sh, t = s.vars[ring[0]]
    s.vars.append(('z0', SENSOR, sh, T('mul', [T('sym', sh=sh, v=nm), T('sym', v='time')], sh)))
    ctx = '\n  ' + '\n  '.join(s.show())
    g = install(s, S, rng)
    opt = rng.random() < 0.4
    try:
        g.buildGraph(opt)
        g.cgraph.getAssignments(SENSOR)
    except S.symbolics.Error:
        return True
    raise Fail('G01', 'cyclic definition of %s accepted (optimize=%s)%s' % ([s.vars[i][0] for i in ring], opt, ctx))
