"""Generic arguments: arbitrary vectors, rotations and their rates."""
from fractions import Fraction
from . import terms as t
from .shim import CMatrix, CEye, CZeros, CSymbol, World, lift, result


def S(name):
    return lift(t.atom(name))


def V(name):
    return CMatrix([t.atom('%s%d' % (name, i)) for i in (1, 2, 3)])


def Mat(name, r=3, c=3):
    return CMatrix([[t.atom('%s%d%d' % (name, i, j)) for j in range(c)] for i in range(r)])


def Sym(name):
    a, b, c, d, e, f = [t.atom(name + k) for k in ('xx', 'xy', 'yy', 'xz', 'yz', 'zz')]
    return CMatrix([[a, b, d], [b, c, e], [d, e, f]])


def unit(name):
    """every unit vector but one"""
    u, v = S(name + '_u'), S(name + '_v')
    n = 1 + u * u + v * v
    return CMatrix([2 * u / n, 2 * v / n, (1 - u * u - v * v) / n])


def cross(a, b):
    a, b = lift(a), lift(b)
    (x, y, z), (p, q, r) = a.e, b.e
    return CMatrix([t.sub(t.mul(y, r), t.mul(z, q)), t.sub(t.mul(z, p), t.mul(x, r)), t.sub(t.mul(x, q), t.mul(y, p))])


def tilde(a):
    x, y, z = lift(a).e
    o = t.num(0)
    return CMatrix([[o, t.neg(z), y], [z, o, t.neg(x)], [t.neg(y), x, o]])


def T(a):
    a = lift(a)
    r, c = a.dims
    return result((c, r), (c, r), [a.at(i, j) for j in range(c) for i in range(r)], CMatrix)


def dot(a, b):
    s = t.num(0)
    for x, y in zip(lift(a).e, lift(b).e):
        s = t.add(s, t.mul(x, y))
    return lift(s)


def mm(*a):
    r = lift(a[0])
    for b in a[1:]:
        b = lift(b)
        n, k = r.dims
        c = b.dims[1]
        e = []
        for i in range(n):
            for j in range(c):
                s = t.num(0)
                for m in range(k):
                    s = t.add(s, t.mul(r.at(i, m), b.at(m, j)))
                e.append(s)
        r = result((n,) if c == 1 else (n, c), (n, c), e, CMatrix)
    return r


def elem(i, a):
    """active rotation about axis i by the angle a (positive sense)"""
    c, s, o, l = t.fn('cos', a), t.fn('sin', a), t.num(0), t.num(1)
    if i == 0:
        return CMatrix([[l, o, o], [o, c, t.neg(s)], [o, s, c]])
    if i == 1:
        return CMatrix([[c, o, s], [o, l, o], [t.neg(s), o, c]])
    return CMatrix([[c, t.neg(s), o], [s, c, o], [o, o, l]])


def rot(name, angles=None):
    """every rotation: product of three elementary rotations (angles: their terms)"""
    a = angles or [t.atom(name + k) for k in ('_al', '_be', '_ga')]
    return mm(elem(2, a[0]), elem(1, a[1]), elem(0, a[2]))


def det(m):
    m = lift(m)
    return dot(CMatrix([m.at(0, 0), m.at(1, 0), m.at(2, 0)]),
               cross(CMatrix([m.at(0, 1), m.at(1, 1), m.at(2, 1)]), CMatrix([m.at(0, 2), m.at(1, 2), m.at(2, 2)])))


def moving(*names):
    """declare that the atoms have rates name -> name_d -> name_dd"""
    w = World.cur
    for n in names:
        w.rates[t.atom(n)] = t.atom(n + '_d')
        w.rates[t.atom(n + '_d')] = t.atom(n + '_dd')


def movingrot(name):
    moving(*[name + k for k in ('_al', '_be', '_ga')])
    return rot(name)


def movingvec(name):
    moving(*['%s%d' % (name, i) for i in (1, 2, 3)])
    return V(name)


def expand(x):
    """replace defined variables by their definitions"""
    w = World.cur
    x = lift(x)
    return result(x.shp, x.dims, [unfold(y, w.defs) for y in x.e], type(x) if type(x) in (CMatrix,) else None)


def unfold(y, defs):
    w = World.cur
    memo = getattr(w, 'memo', None)
    if memo is None or memo[0] != len(defs):
        memo = w.memo = (len(defs), {})
    m = memo[1]
    st = [y]
    while st:
        x = st[-1]
        if x in m:
            st.pop()
            continue
        if x.op == 'v' and x in defs:
            ks = [defs[x]]
        else:
            ks = [k for k in x.a if isinstance(k, t.T)]
        need = [k for k in ks if k not in m]
        if need:
            st.extend(need)
            continue
        if x.op == 'v' and x in defs:
            m[x] = m[defs[x]]
        elif not ks:
            m[x] = x
        else:
            a = [m[k] if isinstance(k, t.T) else k for k in x.a]
            m[x] = x if all(p is q for p, q in zip(a, x.a)) else t.mk(x.op, *a)
        st.pop()
    return m[y]


def D(x, rates=None):
    """time derivative"""
    w = World.cur
    x = lift(expand(x))
    memo = {}
    return result(x.shp, x.dims, [t.diff(y, w.rates if rates is None else rates, memo) for y in x.e],
                  None if x.shp == () else CMatrix)


def partial(x, a):
    x = lift(expand(x))
    a = lift(a).e[0]
    return result(x.shp, x.dims, [t.diff(y, {a: 1}) for y in x.e], None if x.shp == () else CMatrix)


def vee(m):
    """axial vector of a skew matrix"""
    m = lift(m)
    return CMatrix([m.at(2, 1), m.at(0, 2), m.at(1, 0)])
