"""Run every contract on the unchanged tree and record its status (committed as cxxvc/baseline.json)."""
import json, os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/cxxvc')
import contracts as C
props = {}
for k, c in C.TABLE.items():
    for p in c.props:
        props.setdefault(p, []).append(k)
t = tempfile.mkdtemp()
json.dump(sorted(C.TABLE), open(t + '/k', 'w'))
subprocess.run(['python3-vt', V + '/cxxvc/worker.py', t + '/o', sys.argv[1] if len(sys.argv) > 1 else '120', '1800', t + '/k'])
d = json.load(open(t + '/o'))
b = {'properties': {p: sorted(props[p]) for p in sorted(props)}, 'status': {}, 'open': {}}
for r in sorted(d['results'], key=lambda r: r['key']):
    b['status'][r['key']] = r['status']
    if r['fails']:
        b['open'][r['key']] = sorted({f['obligation'] for f in r['fails']})
        print(r['status'], r['key'], r['fails'][0])
    elif r['status'] not in ('proved', 'bounded'):
        print(r['status'], r['key'], r['undecided'][:1])
json.dump(b, open(V + '/cxxvc/baseline.json', 'w'), indent=1, sort_keys=True)
from collections import Counter
print(Counter(b['status'].values()))
