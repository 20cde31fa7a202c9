"""python3-vt -m pyvc.run [PATTERN]: discharge the obligations and list them"""
import sys
import time
import importlib
from concurrent.futures import ProcessPoolExecutor
from . import ob

MODS = ['k01', 'k02', 'k03', 'k04', 'k04b', 'k05']


def table():
    if not ob.TABLE:
        for m in MODS:
            try:
                importlib.import_module('pyvc.' + m)
            except ModuleNotFoundError as e:
                if e.name != 'pyvc.' + m:
                    raise
    return ob.TABLE


def one(a):
    i, seed = a
    sys.setrecursionlimit(100000)
    s = time.time()
    r = ob.discharge(table()[i], seed)
    r['secs'] = round(time.time() - s, 2)
    return r


def run(pattern='', jobs=8, tier='quick', seed=1):
    idx = [i for i, o in enumerate(table()) if pattern in o['key'] and (tier == 'thorough' or not o['thorough'])]
    with ProcessPoolExecutor(jobs) as ex:
        return [(table()[i], r) for i, r in zip(idx, ex.map(one, [(i, seed) for i in idx], chunksize=max(1, len(idx) // 64)))]


if __name__ == '__main__':
    n, st = 0, {}
    for o, r in run(sys.argv[1] if len(sys.argv) > 1 else ''):
        n += r.get('n', 0)
        if r['status'] != 'proved' or '-v' in sys.argv:
            print(r['status'], r['secs'], o['key'][4:].replace('processing.', ''), ' '.join(str(r.get(k) or '') for k in ('why', 'at', 'witness', 'nowitness'))[:300])
        st[r['status']] = st.get(r['status'], 0) + 1
    print(n, 'obligations', st)
