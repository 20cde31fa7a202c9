#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough] | check.py --replay FILE"""
import sys, os, json, time, subprocess, tempfile, shutil, hashlib, glob, argparse
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'cxxvc'))
sys.path.insert(0, V)
INC = ['include', 'functions/include', 'graph/include', 'printer/include', 'writer/include']

# property -> bounded concrete modes (mode, cases in the quick tier)
MODES = {
    'S01': [('build', 24000)], 'S02': [('simp', 24000)], 'S03': [('der', 24000)], 'S04': [('pder', 16000), ('jac', 8000)],
    'S05': [('shape', 24000)], 'S06': [('matrix', 24000)], 'S07': [('eq', 24000)], 'S08': [('subs', 24000)],
    'C01': [('print', 20000)],
}

# cases of gw/: random systems installed with the real library, results compared with an evaluation of the symbolic model
GW = {
    'G01': [('graph', 16000), ('cyclic', 4000)], 'G02': [('graph', 24000)],
    'C02': [('code-py', 1600), ('code-m', 800), ('code-mo', 800), ('code-c', 1200), ('code-f90', 1000), ('code-fmu', 800)],
}
_R = 'bounded stand-in: random systems (1-3 states, up to 14 equations, matrices up to 4 x 4, solves, parameters, constants, inputs, sensors, graphics) built with the real library; '
GWRULE = {
    'G01': _R + 'every assignment of getAssignments may use only what is given or assigned before it, everything requested is assigned, once; definitions with a cycle are refused; non-trivial = accepted and checked (a cycle refused)',
    'G02': _R + 'the assignments executed in their order give the values the equations define (independent evaluation of the model), with and without graph optimizations, whole and in scalars; non-trivial = all values defined and compared',
    'C02': _R + 'the files of the Python, C, Fortran and FMU writers and the Python wrappers written next to them executed (compiled), the Matlab (functions, s-function, simulation start, symbolic) and Modelica (whole, partial) files interpreted, at two points; state derivatives, sensors, graphics and defaults compared with an independent evaluation of the model; non-trivial = written and compared',
}
GWPY = '/opt/pymbs-venv/bin/python'

PYVC = ('K01', 'K02', 'K03', 'K04', 'K05')      # contracts of the Python half


def build_driver(out):
    """objects of the real library from the current tree, linked with the concrete driver"""
    inc = ' '.join('-I%s/symbolics/%s' % (REPO, d) for d in INC)
    src = []
    for d in ('.', 'functions', 'graph', 'printer', 'writer'):
        src += sorted(glob.glob('%s/symbolics/%s/*.cpp' % (REPO, d)))
    jobs = []
    objs = []
    for s in src:
        o = '%s/%s.o' % (out, hashlib.md5(s.encode()).hexdigest()[:12])
        jobs.append((s, o))
    p = subprocess.run(['xargs', '-P8', '-L1', 'sh', '-c', 'g++ -O1 -fpermissive -w %s -c "$0" -o "$1" 2>"$1.err"; true' % inc], input='\n'.join('%s %s' % j for j in jobs), text=True)
    objs = [o for s, o in jobs if os.path.exists(o)]
    missing = [s for s, o in jobs if not os.path.exists(o)]
    r = subprocess.run('g++ -O1 -fpermissive -w %s -I%s/driver %s/driver/driver.cpp %s -o %s/driver' % (inc, V, V, ' '.join(objs), out), shell=True, capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr[-2000:]
    return out + '/driver', missing


def run_driver(drv, mode, start, count, jobs=8, maxfail=3, timeout=600):
    per = (count + jobs - 1) // jobs
    ps = []
    for j in range(jobs):
        ps.append(subprocess.Popen([drv, mode, str(start + j * per), str(per), str(maxfail)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
    fails, cases, ran = [], 0, 0
    end = time.time() + timeout
    for p in ps:
        try:
            o, _ = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
        for l in o.splitlines():
            if l.startswith('FAIL '):
                fails.append(l)
            elif l.startswith('DONE'):
                kv = dict(x.split('=') for x in l.split()[1:])
                cases += int(kv['cases'])
                ran += int(kv['compared'])
    return fails, cases, ran


def run_gw(so, mode, start, count, tmp, jobs=8, maxfail=3, timeout=600):
    per = (count + jobs - 1) // jobs
    env = dict(os.environ, GWTMP=tmp, VERIF_REPO=REPO)
    ps = [subprocess.Popen([GWPY, '-W', 'ignore', V + '/gw/main.py', mode, str(start + j * per), str(per), str(maxfail), so],
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env) for j in range(jobs)]
    fails, cases, ran, dead = [], 0, 0, 0
    end = time.time() + timeout
    for p in ps:
        try:
            o, _ = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
        done = False
        for l in o.splitlines():
            if l.startswith('FAIL '):
                fails.append(json.loads(l[5:]))
            elif l.startswith('DONE'):
                done = True
                kv = dict(x.split('=') for x in l.split()[1:])
                cases += int(kv['cases'])
                ran += int(kv['compared'])
        dead += not done
    return fails, cases, ran, dead


def check_gw(pid, tier, seed, tmp, viol, notes, cov):
    sys.path.insert(0, V + '/gw')
    import ext
    os.makedirs(tmp + '/ext')
    so, info = ext.build(REPO, tmp + '/ext')
    if so is None:
        notes.append('the extension did not build: ' + info[-300:])
        return 0, 0
    cases = ran = 0
    for mode, n in GW[pid]:
        n = n if tier == 'quick' else n * 15
        st = seed * 1000003
        fails, c, r, dead = run_gw(so, mode, st, n, tmp, timeout=200 if tier == 'quick' else 2400)
        mine = [f for f in fails if f['property'] in (pid, 'crash')]
        cov.setdefault('cases_per_mode', {})[mode] = {'cases': c, 'compared': r}
        other = [f for f in fails if f['property'] is None]
        if other:
            notes.append('%s: %d cases not decided, first: %s' % (mode, len(other), other[0]['what'][-300:]))
        if dead:
            notes.append('%s: %d of 8 processes did not finish' % (mode, dead))
        cases += c
        ran += r
        for f in mine[:3]:
            p = write_replay(pid, len(viol), {'property': pid, 'gw': [mode, f['seed']], 'message': f['what'], 'replay_with': 'python3-vt /verif/check.py --replay <this file>'})
            viol.append((p, '', {}))
        if not fails and not dead and r < 0.8 * c:
            # the library refuses what it has to accept
            p = write_replay(pid, len(viol), {'property': pid, 'gw': [mode, st], 'message': 'only %d of %d cases could be compared: models are refused' % (r, c)})
            viol.append((p, ' no-failing-input-found', {}))
    return cases, ran


def known():
    out = {}
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property='):
                pid = l.split('property=')[1].split()[0]
                out.setdefault(pid, []).append(l.split(None, 2)[2])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a.setup:
        print('nothing to build ahead of time')
        return 0
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    pid = a.pid
    tmp = tempfile.mkdtemp(prefix='verif_%s_' % pid)
    try:
        return check(pid, a.tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(f):
    d = json.load(open(f))
    tmp = tempfile.mkdtemp(prefix='verif_replay_')
    try:
        if d.get('gw'):
            sys.path.insert(0, V + '/gw')
            import ext
            os.makedirs(tmp + '/ext')
            so, m = ext.build(REPO, tmp + '/ext')
            fails = run_gw(so, d['gw'][0], d['gw'][1], 1, tmp, jobs=1)[0]
            for f in fails:
                print(f['what'])
            return 1 if fails else 0
        if d.get('driver'):
            drv, m = build_driver(tmp)
            if 'print' in d['driver'][:2]:
                import printcheck
                w = d['driver']
                fails = printcheck.run(drv, int(w[2]), int(w[3]), 1, 3, w[4:])[0] if w[0] == 'term' else printcheck.run(drv, int(w[1]), 1, 1)[0]
                for f in fails:
                    print(f)
                return 1 if fails else 0
            r = subprocess.run([drv] + d['driver'], text=True)
            return 1 if r.returncode else 0
        print(json.dumps(d, indent=1))
        if d.get('heapvc'):
            r = subprocess.run(['python3-vt', '-W', 'ignore', V + '/heapvc/run.py', d['heapvc']], capture_output=True, text=True, env=dict(os.environ, PYMBS_REPO=REPO))
            print(r.stdout)
            return 1 if '   FAILED ' in r.stdout else 0
        if d.get('pyvc'):
            from pyvc import run
            for o, r in run.run(d['pyvc'], tier='thorough', seed=d.get('seed') or 1):
                print(r['status'], r.get('why'), r.get('witness'))
                if r['status'] == 'proved':
                    return 0
        return 1
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def level(pid):
    for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']:
        if c['property'] == pid:
            return c['level']
    return 'exploration'


def write_replay(pid, k, d):
    dd = os.path.join(V, 'evidence', 'replay')
    os.makedirs(dd, exist_ok=True)
    p = os.path.join(dd, '%s_%d.json' % (pid, k))
    json.dump(d, open(p, 'w'), indent=1)
    return p


def check(pid, tier, seed, tmp, t0):
    viol = []
    notes = []
    eng = None
    try:
        import proofs
        eng = proofs.start(pid, tier, seed)
    except ImportError:
        pass
    py = None
    if pid in PYVC:
        import pyproofs
        py = pyproofs.start(pid, tier, seed)
    import heapproofs
    heap = heapproofs.start(pid, tier, seed)
    cases = ran = 0
    cov = {}
    for k in known().get(pid, []):
        print('KNOWN-FINDING: property=%s %s' % (pid, k))
    drv = None
    if pid in MODES:
        drv, info = build_driver(tmp)
        if drv is None:
            notes.append('the concrete driver did not build: ' + info[-300:])
        else:
            for mode, n in MODES[pid]:
                n = n if tier == 'quick' else n * 20
                if mode == 'print':
                    import printcheck
                    fails, c, r, langs = printcheck.run(drv, seed * 1000003, n)
                    cov['texts_per_language'] = langs
                else:
                    fails, c, r = run_driver(drv, mode, seed * 1000003, n, timeout=300 if tier == 'quick' else 3000)
                cases += c
                ran += r
                for f in fails[:3]:
                    sd = f.split()[2]
                    p = write_replay(pid, len(viol), {'property': pid, 'driver': [mode, sd], 'message': f, 'replay_with': 'python3-vt /verif/check.py --replay <this file>'})
                    viol.append((p, '', {}))
    if pid in GW:
        cases, ran = check_gw(pid, tier, seed, tmp, viol, notes, cov)
    res = eng.finish(drv, tmp) if eng else None
    if res:
        for d in res['violations']:
            p = write_replay(pid, len(viol), d)
            viol.append((p, '' if d.get('driver') else ' no-failing-input-found', d))
    pres = py.finish() if py else None
    if pres:
        for d in pres['violations']:
            p = write_replay(pid, len(viol), d)
            viol.append((p, '' if d['found'] else ' no-failing-input-found', d))
    hres = heap.finish() if heap else None
    if hres:
        for d in hres['violations']:
            p = write_replay(pid, len(viol), d)
            viol.append((p, ' no-failing-input-found', d))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level(pid), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if pid in GW:
        c = {'evaluations': cases, 'distinct_nontrivial': ran, 'rule': GWRULE[pid], 'samples': ['%s seeds %d..' % (m, seed * 1000003) for m, _ in GW[pid]]}
    elif pid not in MODES:
        c = {}
    else:
        c = {'evaluations': cases, 'distinct_nontrivial': ran, 'rule': 'bounded stand-in: random reference terms (depth <= 4, sizes <= 4) built with the real library and compared with an independent Taylor-series evaluator; non-trivial = both sides defined and compared', 'samples': ['%s seeds %d..' % (m, seed * 1000003) for m, _ in MODES.get(pid, [])]}
    if res:
        c.update(res['coverage'])
        ev['assumptions'] = res['assumptions']
    else:
        ev['assumptions'] = []
    if pres:
        c.update(pres['coverage'])
        ev['assumptions'] = ev['assumptions'] + pres['assumptions']
    if hres:
        if res:
            c['cxxvc'] = {k: res['coverage'].get(k) for k in ('functions_under_contract', 'obligations', 'discharged', 'back_end', 'solver_s')}
        c.update(hres['coverage'])
        ev['assumptions'] = ev['assumptions'] + hres['assumptions']
    ev['assumptions'] = ev['assumptions'] + notes
    c.update(cov)
    ev['coverage'] = c
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    viol.sort(key=lambda x: (x[1] != '', 'function' not in x[2]))
    for p, tail, _ in viol[:5]:
        print('VIOLATION property=%s replay=%s%s' % (pid, p, tail))
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main())
