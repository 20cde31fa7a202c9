"""Loops: proof rules for loops over an argument list of unknown length, and unrolling otherwise.

map-append rule   for (k=0..n) S.push_back(E(a_k))  with value(E(a_k)) == L(value(a_k)) for a
                  homomorphism L of the owner's operation; afterwards S has gained n elements whose
                  total is L(total).  L is guessed and every path of the body must prove it.
product rule      the same with E = pre * D(a_k) * suf; the sum of the new elements is D(total).
quantifier rule   a loop without effects that may return early: one arbitrary iteration.
unrolling         at most CAP iterations; the function is then recorded as bounded.
"""
import z3
from fractions import Fraction as Fr
from engine import *
from sem import NFCtx, Bail, isz

CAP = 3


def loopvar(e, n):
    """(name id, start, bound node, inclusive, body) of  for (T v = a; v < b; ++v)"""
    if n.k != 'ForStmt':
        return None
    init, cond, inc, body = n.inner[0], n.inner[-3], n.inner[-2], n.inner[-1]
    if init is None or init.k != 'DeclStmt' or len(init.inner) != 1 or cond is None or inc is None:
        return None
    v = init.inner[0]
    c = cond
    while c.k in ('ExprWithCleanups', 'ParenExpr', 'ImplicitCastExpr'):
        c = c.inner[0]
    if c.k != 'BinaryOperator' or c.op != '<':
        return None
    l = c.inner[0]
    while l.k in ('ImplicitCastExpr', 'ParenExpr'):
        l = l.inner[0]
    if l.k != 'DeclRefExpr' or l.ref[0] != v.id:
        return None
    i = inc
    while i.k in ('ExprWithCleanups', 'ParenExpr', 'ImplicitCastExpr'):
        i = i.inner[0]
    if i.k != 'UnaryOperator' or i.op != '++':
        return None
    return v, c.inner[1], body


def loop(e, n):
    lv = loopvar(e, n)
    key = (e.frames[-1]['f'].key, n.line)
    if lv is not None and key not in e.ctx.unroll:
        v, bnode, body = lv
        e.decl(v)
        cell = e.frames[-1]['vars'][v.id]
        b = e.ev(bnode)
        if isz(b):
            b = z3.simplify(b)
            if z3.is_int_value(b):
                b = b.as_long()
        if isz(b) and not concrete_len(e, b):
            return generic(e, n, key, v, cell, b, body, bnode)
    unroll(e, n)


def concrete_len(e, b):
    for c in (1, 2, 3):
        if e.entails(b == c):
            return True
    return False


def truthy(e, n):
    if n is None:
        return True
    return e.truth(n)


def unroll(e, n):
    if n.k == 'ForStmt':
        if n.inner[0] is not None:
            e.exec(n.inner[0])
        cond, inc, body = n.inner[-3], n.inner[-2], n.inner[-1]
    elif n.k == 'WhileStmt':
        cond, inc, body = n.inner[0], None, n.inner[-1]
    elif n.k == 'DoStmt':
        cond, inc, body = n.inner[1], None, n.inner[0]
    else:
        e.unsup(n)
    it = 0
    forked = 0
    while True:
        if not (n.k == 'DoStmt' and it == 0):
            before = len(e.script)
            sym = e.nforks
            if not truthy(e, cond):
                break
            if e.nforks > sym:
                forked += 1
                if forked > CAP:
                    e.ctx.bounded = True
                    raise PathEnd('unroll')
        it += 1
        if it > 64:
            raise Unsupported('loop bound')
        try:
            e.exec(body)
        except Brk:
            break
        except Cont:
            pass
        if inc is not None:
            e.eval(inc)


# ------------------------------------------------------------------ generic rules
def snapshot(e):
    s = []
    seqs = {}
    for fr in e.frames:
        for vid, c in fr['vars'].items():
            if isinstance(c, Cell):
                s.append((c, c.v))
                if isinstance(c.v, Seq):
                    seqs[id(c.v)] = (c.v, list(c.v.flat()))
                elif isinstance(c.v, MapV):
                    seqs[id(c.v)] = (c.v, list(c.v.items))
        t = fr['this']
        if isinstance(t, Obj):
            for f, v in t.fields.items():
                if isinstance(v, Seq):
                    seqs[id(v)] = (v, list(v.flat()))
    return s, seqs


def heap(e):
    out = []
    for o in {id(o): o for o in list(e.objs) + list(e.alloc)}.values():
        out.append((o, {f: (x, list(x.flat()) if isinstance(x, Seq) else None) for f, x in o.fields.items()}, o.shape.t()))
    return out


def mutated(e, snap):
    """objects of the snapshot with another content now"""
    out = []
    for o, fs, sh in snap:
        for f, (x, fl) in fs.items():
            if f in ('m_simplified', 'm_hash'):
                continue
            y = o.fields.get(f)
            if fl is not None:
                if not isinstance(y, Seq):
                    out.append(o)
                    break
                now = y.flat()
                if len(now) != len(fl) or any(a is not b for a, b in zip(now, fl)):
                    out.append(o)
                    break
            elif y is not x and not same(y, x):
                out.append(o)
                break
        else:
            if any(a is not b and not same(a, b) for a, b in zip(o.shape.t(), sh)):
                out.append(o)
    return out


def twin(e, X):
    """a given matrix with the same elements as the built matrix X"""
    d = e.concrete_shape(X.shape)
    if d is None or getattr(X, 'sym', None):
        return None
    fl = X.fields['m_args'].flat()
    if len(fl) != d[1] * d[2]:
        return None
    for M in e.mats:
        if M is X or M.built:
            continue
        if e.concrete_shape(M.shape) != d:
            continue
        if all(e.rep(fl[i * d[2] + j]) is e.rep(e.ctx.matget(e, M, i, j)) for i in range(d[1]) for j in range(d[2])):
            return M
    return None


def power(e, key, n, X, K, st, b, body, cell):
    """for (j=1; j<b; ++j) X = X*B  with X = B at the start: invariant X = B^j"""
    if st != 1 or X.ty() != 'Matrix':
        fallback(e, key)
    B = twin(e, X)
    if B is None:
        fallback(e, key)
    d = e.concrete_shape(X.shape)
    def elems(ex):
        out = []
        for i in range(d[1]):
            for j in range(d[2]):
                x = e.obj(shape=SC0())
                x.term = ('el', ('pow', T(B), ('num', z3.ToReal(zi(ex)))), i, j)
                out.append(x)
        return out
    old = elems(K)
    X.fields['m_args'] = Seq(old)
    snap = heap(e)
    try:
        e.exec(body)
    except (Cont, Ret, CThrow, Brk, Unsupported):
        fallback(e, key)
    ch = mutated(e, snap)
    if any(o is not X for o in ch):
        fallback(e, key)
    fl = X.fields['m_args'].flat()
    if len(fl) != d[1] * d[2] or X.shape.t() != d:
        fallback(e, key)
    nf = NFCtx(Q(e))
    for i in range(d[1]):
        for j in range(d[2]):
            want = ('add', tuple(('mul', T(old[i * d[2] + k]), T(e.ctx.matget(e, B, k, j))) for k in range(d[1])))
            try:
                if not nf.eq(nf.nf(T(fl[i * d[2] + j])), nf.nf(want)):
                    fallback(e, key)
            except Bail:
                fallback(e, key)
    new = elems(b)
    X.fields['m_args'] = Seq(new)
    X.facts['power'] = (new, ('pow', T(B), ('num', z3.ToReal(zi(b)))))
    cell.v = b


def SC0():
    return ShapeV(0, 1, 1)


def fields_snapshot(e):
    return [(fr['this'], dict(fr['this'].fields)) for fr in e.frames if isinstance(fr['this'], Obj)]


def fallback(e, key):
    e.ctx.power.pop(key, None)
    e.ctx.unroll.add(key)
    raise Restart('unroll %s' % (key,))


def generic(e, n, key, v, cell, b, body, bnode):
    st = cell.v
    if (isz(st) or st != 0) and not (isz(st) and e.entails(st == 0)):
        if isz(st) or st != 1:
            fallback(e, key)
    if not e.decide(zi(b) > zi(st)):
        return
    K = e.skolem('K')
    e.assume(z3.And(K >= st, K < b))
    cells, seqs = snapshot(e)
    fs = fields_snapshot(e)
    hs = heap(e)
    epoch = e.epoch
    cell.v = K
    pw = e.ctx.power.get(key)
    if pw is not None:
        X = next((o for o in reversed(e.alloc) if o.ty() == 'Matrix' and twin(e, o) is not None), None)
        if X is None:
            fallback(e, key)
        return power(e, key, n, X, K, st, b, body, cell)
    early = None
    try:
        e.exec(body)
    except Cont:
        pass
    except (Ret, CThrow) as x:
        early = x
    except Brk:
        fallback(e, key)
    except Unsupported:
        fallback(e, key)
    changed = [(c, old) for c, old in cells if c is not cell and c.v is not old and not same(c.v, old)]
    grown = []
    for q, old in seqs.values():
        if isinstance(q, MapV):
            if len(q.items) != len(old):
                fallback(e, key)
            continue
        now = q.flat()
        if len(now) != len(old) or any(x is not y for x, y in zip(now, old)):
            if len(now) == len(old) + 1 and all(x is y for x, y in zip(now, old)):
                grown.append((q, old, now[-1]))
            else:
                fallback(e, key)
    for o, old in fs:
        for f, x in o.fields.items():
            if f in old and old[f] is not x and not isinstance(x, Seq) and f not in ('m_simplified', 'm_hash'):
                fallback(e, key)
    if early is not None:
        if changed or grown:
            fallback(e, key)
        raise early
    if changed:
        fallback(e, key)
    gq = {id(q) for q, _, _ in grown}
    ch = [o for o in mutated(e, hs) if not any(id(y) in gq for y in o.fields.values())]
    if ch:
        if len(ch) == 1 and ch[0] in e.alloc and not grown and ch[0].ty() == 'Matrix':
            e.ctx.power[key] = True
            raise Restart('power %s' % (key,))
        fallback(e, key)
    for q, old, x in grown:
        src = iterated(e, K)
        if src is None or not isinstance(x, Obj) or st != 0 or not e.entails(src.n == zi(b)):
            fallback(e, key)
        summarise(e, key, q, old, x, src, K)
    cell.v = b
    return


def same(a, b):
    if isz(a) and isz(b):
        return a.eq(b)
    return type(a) == type(b) and not isinstance(a, (Obj, Seq, MapV)) and a == b


def iterated(e, K):
    for q in e.opqs:
        if str(K) in q.elems:
            return q
    return None


def split(e, q, i):
    """the elements of a list of factors (summands) before and after element i"""
    import contracts as C
    if q.kind != 'Mul' or q.total is None:
        raise Unsupported('store into an opaque list')
    if not e.entails(z3.And(zi(i) >= 0, zi(i) < zi(q.n))):
        raise Unsupported('store out of range')
    a = e.opq_elem(q, i)
    sp = q.__dict__.setdefault('split', {})
    if str(i) not in sp:
        e.ctx.assumed.add('list of factors (opaque): the product of the factors before one, the factor, and the product of those after it conform')
        P, S = e.obj(name='pre%d' % q.id), e.obj(name='suf%d' % q.id)
        pa = C.mulshape(e, P.shape, a.shape)
        e.assume(C.conforms_mul(P.shape, a.shape))
        e.assume(C.conforms_mul(pa, S.shape))
        sh = q.owner.shape if q.owner is not None else getattr(q, 'tshape', None)
        if sh is None:
            raise Unsupported('shape of a list of factors')
        e.assume(e.shape_eq(C.mulshape(e, pa, S.shape), sh))
        sp[str(i)] = (P, S)
        qs = []
        for o, k in ((P, zi(i)), (S, zi(q.n) - zi(i) - 1)):
            x = Opq(e, k, ('obj', o), owner=None)
            x.kind, x.tshape = q.kind, o.shape
            qs.append(x)
        sp[str(i) + '.q'] = qs
    return sp[str(i) + '.q']


CANDS = ['id', 'neg', 'D', 'sub', 'prodD']


def apply(e, L, t):
    if L == 'id':
        return t
    if L == 'neg':
        return ('neg', t)
    if L in ('D', 'prodD'):
        return ('D', t, e.ctx.wrt(e))
    if L == 'sub':
        return ('sub', t)


def summarise(e, key, q, old, x, src, K):
    kind = src.kind
    a = src.elems[str(K)]
    L = e.ctx.cand.setdefault((key, kind, len(old)), [c for c in CANDS if not (kind == 'Mul' and c in ('neg', 'D')) and not (kind == 'Add' and c == 'prodD')])
    if not L:
        fallback(e, key)
    c = L[0]
    ok = False
    try:
        nf = NFCtx(Q(e))
        if c == 'prodD':
            # elements pre * D(a) * suf of a product pre * a * suf
            dec = getattr(src, 'split', {}).get(str(K))
            if dec is not None:
                want = ('mul', ('mul', T(dec[0]), apply(e, 'D', T(a))), T(dec[1]))
                ok = e.ctx.wrt(e) is not None and nf.eq(nf.nf(T(x)), nf.nf(want))
                if ok:
                    ok = e.entails(e.shape_eq(x.shape, src.owner.shape if src.owner is not None else src.tshape))
        else:
            if e.ctx.wrt(e) is not None or c not in ('D',):
                if not (c == 'sub' and not e.ctx.issub):
                    ok = nf.eq(nf.nf(T(x)), nf.nf(apply(e, c, T(a))))
                    if ok:
                        ok = e.entails(e.shape_eq(x.shape, a.shape))
    except Bail:
        ok = False
    if not ok:
        del L[0]
        if not L:
            fallback(e, key)
        raise Restart('candidate %s %s' % (c, key))
    if c == 'id' and e.rep(x) is e.rep(a):
        q.segs = list(old) + [src]      # the elements themselves
        return
    nq = Opq(e, src.n, apply(e, c, src.total), owner=None)
    nq.kind = 'Add' if c == 'prodD' else kind
    nq.tshape = src.owner.shape if src.owner is not None else getattr(src, 'tshape', None)
    nq.allscalar = getattr(src, 'allscalar', False)
    q.segs = list(old) + [nq]


def T(o):
    return ('obj', o)
