"""C02: the files of the writers, executed, against the symbolic model."""
import os, sys, shutil, tempfile
import numpy as np
from system import *
from terms import Bad as TBad
import files
from files import Skip
from variants import VARIANTS
from graphcheck import Fail

PROFS = {
    'py': dict(ops=['if', 'sign', 'skew'], solve='any', groups=True, xstate=True),
    'c': dict(ops=['if', 'sign', 'skew'], solve='any', groups=True, xstate=True),
    'f90': dict(ops=['sign', 'skew'], solve='any', groups=True, xstate=True),
    'm': dict(ops=['sign', 'skew'], solve='any', groups=True, xstate=True),
    'fmu': dict(ops=['if', 'sign', 'skew'], solve='any', groups=True, xstate=True),
    'mo': dict(ops=['if', 'sign', 'skew'], solve='any', groups=True, xstate=True, vistime=True),
}


def order(s):
    """states as the writers sort them: scalars before vectors, then sizes, then names"""
    return sorted(((n, sh) for n, sh, v in s.states), key=lambda x: (len(x[1]) > 0 and x[1] or (), x[0]))


def case(seed, S, lg=None):
    rng = random.Random(seed)
    lg = lg or rng.choice(sorted(PROFS))
    s = make(rng, dict(PROFS[lg], sensref=seed % 4 == 0))
    s.ordered = order(s)
    base = {n: v for n, sh, v in s.inputs}
    pts = []
    try:
        for i in range(2):
            b = dict(base)
            if i:
                b = {n: rv(rng, sh) for n, sh, v in s.inputs}
            b.update({n: rv(rng, sh) for n, sh, v in s.states})
            b['time'] = (0.731, -1.37)[i]
            pts.append((b, s.values(b)))
    except TBad:
        return None
    o1, o2 = rng.random() < 0.5, rng.random() < 0.5
    kw, cls = random.Random(seed * 7 + 1).choice(VARIANTS[lg])
    ctx = ' (%s %s, optimize=%s, %s)\n  %s' % (lg, '' if callable(kw) else kw, o1, o2, '\n  '.join(s.show()))
    g = install(s, S, rng)
    d = tempfile.mkdtemp(prefix='gw', dir=os.environ.get('GWTMP', None))
    name = 'm%d' % seed
    try:
        try:
            g.buildGraph(o1)
            opts = kw(d) if callable(kw) else kw
            if told(lambda: g.writeCode(lg, name, d, **opts), d):
                return None
        except S.symbolics.Error as e:
            if 'Implicit equations are not yet implemented' in str(e) and any(t is not None and t.op == 'solve' for n, k, sh, t in s.vars):
                return None   # a linear system inside another expression is refused by the writers of scalar code
            raise Fail('C02', 'refused: %s%s' % (e, ctx))
        try:
            x = cls(s, d, name)
            check(x, s, pts, base)
        except files.Bad as e:
            raise Fail('C02', '%s%s' % (e, ctx))
        except Skip:
            return None
        except (NameError, SyntaxError, IndexError) as e:
            raise Fail('C02', '%s: %s%s' % (type(e).__name__, e, ctx))
        except (TypeError, ValueError, AttributeError) as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            if not any('m%d' % seed in f.filename for f in tb):
                raise
            raise Fail('C02', '%s: %s%s' % (type(e).__name__, e, ctx))
    finally:
        if os.environ.get('GWKEEP'):
            print(d, file=sys.stderr)
        else:
            shutil.rmtree(d)
    return True


def told(f, d):
    """the writer says that it cannot write something"""
    sys.stderr.flush()
    keep = os.dup(2)
    fd = os.open(d + '/stderr', os.O_RDWR | os.O_CREAT)
    os.dup2(fd, 2)
    try:
        f()
    finally:
        os.dup2(keep, 2)
        os.close(keep)
        os.close(fd)
    return 'error(s) during generation' in open(d + '/stderr', encoding='latin-1').read()


def check(x, s, pts, base):
    for n, vs in x.defaults().items():
        for v in vs:
            if n not in base:
                raise files.Bad('%s is no input' % n)
            if not close(v, base[n]):
                raise files.Bad('default of input %s is %s instead of %s' % (n, v, base[n]))
    for b, want in pts:
        y = np.concatenate([np.asarray(b[n], float).reshape(-1) for n, sh in s.ordered])
        yd = np.concatenate([np.asarray(want['der_' + n], float).reshape(-1) for n, sh in s.ordered])
        out = x.run(y, b['time'], {n: b[n] for n, sh, v in s.inputs})
        if x.key == 'mo':
            for n, sh in s.ordered:
                if 'der_' + n not in out:
                    raise files.Bad('der(%s) has no equation' % n)
        else:
            if 'yd' not in out:
                raise files.Bad('no state derivative')
            if not close(out['yd'], yd):
                raise files.Bad('state derivative is %s instead of %s' % (out['yd'], yd))
        kinds = (SENSOR, GRAPHIC)
        for n, k, sh, t in s.vars:
            if k in kinds and not (k == GRAPHIC and (x.key == 'm' or not getattr(x, 'visual', True))):
                if n not in out:
                    raise files.Bad('%s is not returned' % n)
        for n, v in out.items():
            if n in want:
                if not close(v, want[n]):
                    raise files.Bad('%s is %s instead of %s' % (n, v, want[n]))


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.size != b.size or (a.ndim == 2 and b.ndim == 2 and a.shape != b.shape):
        return False
    a, b = a.reshape(-1), b.reshape(-1)
    return bool(np.all(np.abs(a - b) <= 1e-6 * (1 + np.abs(b))))
