"""worker.py OUT.json SECS TOTAL PATTERN-FILE: parse the real sources, verify the listed contracts, write the reports."""
import sys, os, json, time, traceback, multiprocessing as mp
sys.setrecursionlimit(60000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import frontend
import contracts as C
from run import verify, Report, short

P = None


def one(a):
    key, secs = a
    try:
        r = verify(P, key, secs=secs)
    except Exception:
        r = Report(key)
        r.status = 'crash'
        r.undecided = [(traceback.format_exc().strip()[-300:], '')]
    d = {'key': key, 'status': r.status, 'paths': r.paths, 'obligations': r.obligations, 'smt': r.smt, 'tsmt': round(r.tsmt, 2), 'time': round(r.time, 2), 'bounded': r.bounded,
         'used': sorted(r.used), 'inlined': sorted(r.inlined), 'assumed': sorted(str(x) for x in r.assumed), 'undecided': [list(map(str, u))[:2] for u in r.undecided[:5]], 'fails': []}
    for f in r.fails:
        d['fails'].append({'obligation': f.name, 'detail': str(f.detail)[:3000], 'definite': f.definite, 'case': f.case, 'model': f.model, 'agree': f.agree, 'cases': f.cases, 'unknown': f.unknown, 'path': f.script})
    return d


def main():
    global P
    out, secs, total, lst = sys.argv[1], float(sys.argv[2]), float(sys.argv[3]), sys.argv[4]
    t0 = time.time()
    keys = json.load(open(lst))
    P = frontend.Program(frontend.sources())
    tp = time.time() - t0
    res = []
    with mp.Pool(8) as pool:
        it = pool.imap_unordered(one, [(k, secs) for k in keys])
        for _ in keys:
            try:
                res.append(it.next(timeout=max(1, total - (time.time() - t0))))
            except mp.TimeoutError:
                break
        pool.terminate()
    have = {r['key'] for r in res}
    res += [{'key': k, 'status': 'undecided', 'paths': 0, 'obligations': 0, 'smt': 0, 'tsmt': 0, 'time': 0, 'bounded': False, 'used': [], 'inlined': [], 'assumed': [], 'undecided': [['time', '']], 'fails': []} for k in keys if k not in have]
    json.dump({'parse_s': round(tp, 1), 'wall_s': round(time.time() - t0, 1), 'functions_parsed': len(P.funcs), 'results': res}, open(out, 'w'))


if __name__ == '__main__':
    main()
