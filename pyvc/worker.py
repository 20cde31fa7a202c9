"""python3-vt -m pyvc.worker PROPERTY TIER SEED OUT: discharge the obligations of a property, results as JSON"""
import json
import sys
import time
from .run import run


def main():
    pid, tier, seed, out = sys.argv[1:5]
    s = time.time()
    res = []
    for k in range(1 if tier == 'quick' else 5):
        for o, r in run(pid + ' ', tier=tier, seed=int(seed) + k):
            r.update(func=o['func'], bounded=o['bounded'], seed=int(seed) + k)
            if k == 0:
                res.append(r)
            elif r['status'] == 'failed':
                res = [x if x['key'] != r['key'] else r for x in res]
    json.dump(dict(results=res, wall_s=round(time.time() - s, 1)), open(out, 'w'), default=str)


if __name__ == '__main__':
    main()
