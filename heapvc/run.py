"""heapvc/run.py [PATTERN]: every obligation of the contracts that match"""
import sys, os, time, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, '..', 'cxxvc')]
sys.setrecursionlimit(20000)
import z3
import frontend
from core import World, Undecided
from execute import Ex
import contracts as G
import matrix

SETS = {'G01': (G.T, 3), 'S06': (matrix.T, 4)}     # contracts, references of the finite world
P = {}


class C:
    T = dict(G.T)
    T.update({k: c for k, c in matrix.T.items() if c.prop == 'S06'})


def program(prop='G01'):
    if prop == 'S06':
        P = frontend.Program([p for p in frontend.sources() if p.endswith(('/Matrix.cpp', '/SymmetricMatrix.cpp', '/NaryOp.cpp', '/Shape.cpp', '/Basic.cpp', '/Int.cpp', '/Real.cpp', '/Zero.cpp', '/Operators.cpp'))])
        from core import typedefs
        P.typedefs, P.valued = typedefs(frontend.REPO), True
        return P
    P = frontend.Program([p for p in frontend.sources() if '/graph/' in p or p.endswith('/Basic.cpp')])
    for c in ('DerivativeScanner', 'SymbolScanner'):      # EquationSystem has classes of these names, too
        P.classes[c] = P.nested.get(('Equation', c), P.classes.get(c))
    from core import typedefs
    P.typedefs = typedefs(frontend.REPO)
    return P


def attempt(X, pc, goal, secs, want=None):
    s = z3.Solver(ctx=X.W.ctx)
    s.set('timeout', int(secs * 1000))
    for a in getattr(X, 'axioms', []):
        s.add(a)
    for p in pc:
        s.add(p)
    s.add(z3.Not(goal))
    return s, s.check()


def parts(g):
    if z3.is_and(g):
        return [p for c in g.children() for p in parts(c)]
    return [g]


def discharge(X, pc, goal, secs):
    """attempt; when the solver gives up: part by part, and with another treatment of products"""
    s, r = attempt(X, pc, goal, secs if X.P is not P.get('S06') else min(secs, 3))
    if r != z3.unknown or X.P is not P.get('S06'):
        return r
    ps = parts(goal)
    for g in ps:
        if len(ps) > 1:
            s, r = attempt(X, pc, g, secs)
            if r == z3.unsat:
                continue
        for cfg in ({'smt.arith.nl': False, 'smt.mbqi': False}, {'smt.mbqi': False}, {'smt.arith.nl': False}, {}):
            s = z3.Solver(ctx=X.W.ctx)
            s.set('timeout', int(secs * 1000))
            for k, v in cfg.items():
                s.set(k, v)
            s.add(*X.axioms)
            s.add(*pc)
            s.add(z3.Not(g))
            r = s.check()
            if r == z3.unsat:
                break
        if r != z3.unsat:
            return r
    return z3.unsat


def one(a):
    key, secs = a
    if key.startswith('lemma '):
        return lemma(key, secs)
    prop = C.T[key].prop
    TT, refs = SETS[prop]
    PP = P[prop]
    t0 = time.time()
    d = {'key': key, 'status': 'proved', 'obligations': 0, 'discharged': 0, 'open': [], 'failed': [], 'smt_s': 0.0, 'used': [], 'inlined': [], 'paths': 0}
    try:
        X = Ex(PP, World(), TT)
        d['paths'] = X.verify(key)
    except Undecided as e:
        d.update(status='undecided', why=str(e), time=round(time.time() - t0, 2))
        return d
    except Exception:
        import traceback
        d.update(status='crash', why=traceback.format_exc()[-600:], time=round(time.time() - t0, 2))
        return d
    d['used'], d['inlined'] = sorted(X.used), sorted(X.inlined)
    for n, (name, pc, goal) in enumerate(X.obl):
        d['obligations'] += 1
        if len(d['open']) >= 4:
            d['open'].append((n, name, 'not tried'))
            continue
        t1 = time.time()
        r = discharge(X, pc, goal, secs)
        d['smt_s'] += time.time() - t1
        if r == z3.unsat:
            d['discharged'] += 1
        else:
            d['open'].append((n, name, str(r)))
    if d['open']:
        d['status'] = 'open'
    # the function itself, its loops unrolled, in a world of a few references.  Open obligations:
    # what the contract says must fail there, not only an invariant that no longer fits.
    # Otherwise: some run must reach the end, so that the contract is not vacuous.
    try:
        for n in (1, 2, 3):
            Y = Ex(PP, World(refs), TT, unroll=n, limit=1500)
            Y.verify(key)
            d['unrolled'] = n
            if not d['open']:
                d['reachable'] = 0
                for q, kd in Y.final:
                    if kd != 'throw' and attempt(Y, q.pc, Y.W.false(), secs)[1] == z3.sat:
                        d['reachable'] += 1
                        if d['reachable'] >= 3:
                            break
                if d['reachable']:
                    break
                continue
            for name, pc, goal in Y.obl:
                if time.time() - t0 > 12 * secs:
                    break
                s, r = attempt(Y, pc, goal, secs)
                if r == z3.sat:
                    m = s.model()
                    d['failed'].append((name, '; '.join('%s = %s' % (x, str(m[x]).replace('\n', ' ')[:160]) for x in list(m)[:40])))
                    if len(d['failed']) >= 3:
                        break
            if d['failed']:
                d['status'] = 'failed'
                break
    except Undecided as e:
        d['why'] = str(e)
    except Exception as e:
        d['why'] = str(e)[:200]
    if not d['open'] and not d.get('reachable'):
        d['status'] = 'vacuous'
    d['time'] = round(time.time() - t0, 2)
    d['smt_s'] = round(d['smt_s'], 2)
    return d


def lemma(key, secs):
    t0 = time.time()
    d = {'key': key, 'status': 'proved', 'obligations': 1, 'discharged': 0, 'open': [], 'failed': [], 'smt_s': 0.0, 'used': [], 'inlined': [], 'paths': 1, 'reachable': 1}
    ctx, ls = matrix.lemma_obligations()
    s = z3.Solver(ctx=ctx)
    s.set('timeout', int(secs * 1000))
    s.add(z3.Not(dict(ls)[key[6:]]))
    r = s.check()
    if r == z3.unsat:
        d['discharged'] = 1
    else:
        d.update(status='open', open=[(0, key, str(r))])
    d['time'] = d['smt_s'] = round(time.time() - t0, 2)
    return d


def keys(pat='', prop=None):
    ks = [k for k, c in C.T.items() if pat in k and not k.startswith('_') and c.post and (prop is None or c.prop == prop)]
    if prop in (None, 'S06'):
        ks += [k for k in ('lemma ' + n for n, _ in matrix.lemma_obligations()[1]) if pat in k]
    return ks


def run(ks, secs=8, jobs=8):
    for pr in SETS:
        if pr not in P and any(k in C.T and C.T[k].prop == pr for k in ks):
            P[pr] = program(pr)
    with mp.Pool(min(jobs, max(1, len(ks)))) as pool:
        for d in pool.imap_unordered(one, [(k, secs) for k in ks], chunksize=1):
            yield d


if __name__ == '__main__' and sys.argv[1:2] == ['--json']:
    # --json PROPERTY SECS OUT
    t0 = time.time()
    r = list(run(keys(prop=sys.argv[2]), float(sys.argv[3])))
    import json
    mine = keys()
    assumed = sorted({u + (' (%s)' % C.T[u].note if u in C.T and C.T[u].note else '') for d in r for u in d['used'] if u not in mine})
    json.dump({'results': r, 'assumed': assumed, 'wall_s': round(time.time() - t0, 1)}, open(sys.argv[4], 'w'))
elif __name__ == '__main__':
    for d in run(keys(sys.argv[1] if len(sys.argv) > 1 else '')):
        print(d['status'], d['key'].split('(')[0], 'paths', d['paths'], 'obligations', d['discharged'], '/', d['obligations'], d.get('time'), 's', 'returns', d.get('reachable'), d.get('why', ''))
        for x in d['open'][:12]:
            print('   open', x)
        for x in d['failed'][:3]:
            print('   FAILED', x[0], x[1][:600])
