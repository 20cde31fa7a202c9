"""Obligations: run a function of /repo on generic arguments, compare its results with its contract."""
import io
import contextlib
import random
import traceback
from . import terms as t, shim, load

TABLE = []


REFUSALS = (AssertionError, ValueError, ArithmeticError, RuntimeError, LookupError, UnboundLocalError)


class Skip(Exception):
    pass


class Case:
    """the obligations of one run of one function"""

    def __init__(self, w):
        self.w, self.pairs, self.facts, self.positive, self.setup = w, [], [], set(), None

    def eq(self, name, x, y):
        """x and y are arrays of equal shape with equal elements"""
        x, y = arr(x), arr(y)
        if x.dims != y.dims:
            self.facts.append((name + ' (shape %s, expected %s)' % (x.dims, y.dims), False))
            return
        for i, (a, b) in enumerate(zip(x.e, y.e)):
            n = name if len(x.e) == 1 else '%s[%d,%d]' % (name, i // x.dims[1], i % x.dims[1])
            self.pairs.append((n, a, b))

    def true(self, name, b):
        self.facts.append((name, bool(b)))

    def raises(self, name, kinds, f, *a):
        try:
            f(*a)
        except kinds:
            self.facts.append((name, True))
        else:
            self.facts.append((name, False))


def arr(x):
    if isinstance(x, list):
        return shim.CMatrix(x)
    return shim.lift(x)


def ob(prop, func, clause, points=3, bounded=None, thorough=False):
    """prop: property; func: the function(s) of /repo under contract; clause: what is shown"""
    def deco(f):
        TABLE.append(dict(prop=prop, func=func, clause=clause, run=f, points=points, bounded=bounded, thorough=thorough,
                          key='%s %s: %s' % (prop, func, clause)))
        return f
    return deco


def discharge(o, seed=1):
    load.setup()
    w = shim.World()
    c = Case(w)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            o['run'](c)
    except Skip as e:
        return dict(key=o['key'], status='skip', why=str(e))
    except Exception as e:          # the code leaves the subset the stand-in covers, or refuses the input
        tb = traceback.extract_tb(e.__traceback__)
        inside = bool(tb) and tb[-1].filename.startswith(load.REPO + '/')
        refused = inside and (isinstance(e, REFUSALS + (NameError,)) or isinstance(e, (TypeError, AttributeError)) and 'NoneType' in str(e)
                              or isinstance(e, AttributeError) and type(e.obj).__module__.startswith('pymbs'))
        # the library refuses what it is given by the code (shapes that do not fit, names given twice)
        refused = refused or isinstance(e, shim.Error) and any(f.filename.startswith(load.REPO + '/') for f in tb)
        return dict(key=o['key'], status='crash', refused=refused, why='%s: %s' % (type(e).__name__, str(e)[:200]),
                    at=['%s:%s' % (f.filename, f.lineno) for f in tb[-4:]])
    r = dict(key=o['key'], n=len(c.pairs) + len(c.facts))
    for n, ok in c.facts:
        if not ok:
            return dict(r, status='failed', why=n, witness=None, fact=True)
    if not c.pairs:
        return dict(r, status='proved' if c.facts else 'crash')
    try:
        v = t.decide(c.pairs, w.defs, positive=c.positive, seed=seed, points=o['points'], setup=c.setup)
    except (ValueError, RecursionError) as e:
        return dict(r, status='crash', why='%s: %s' % (type(e).__name__, e))
    if v.ok:
        return dict(r, status='proved')
    if v.ok is None:
        return dict(r, status='open', why=v.why)
    r.update(status='failed', why=v.why)
    try:
        p = [x for x in c.pairs if x[0] == v.why] + c.pairs
        x = t.witness(p, w.defs, positive=c.positive, seed=seed, setup=c.setup)
    except Exception as e:
        x = None
        r['nowitness'] = str(e)
    if x:
        r['witness'] = dict(obligation=x[0], got=x[1], expected=x[2], at=x[3])
    else:
        r['witness'] = None
    return r
