"""Deductive part of a check: re-derive and discharge every obligation of the contracts of one property."""
import json, os, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
CX = os.path.join(V, 'cxxvc')
BASE = os.path.join(CX, 'baseline.json')
GENERAL = [
    'machine arithmetic treated as mathematical: int is Z, double is R (no overflow, rounding, NaN); size_t is Z>=0 with subtraction checked where it occurs in an index',
    'the clang 18 AST of the sources (with the include paths of the build) is what the compiler compiles',
    'boost::intrusive_ptr counts references correctly and holds no null pointer where a function receives an expression; std::vector, std::string and std::map behave as documented',
    'number of dimensions and dimensions of an expression agree (nd=0: 1x1, nd=1: one dimension >1, nd=2: both >1); matrices are raised to nonzero integer powers only; Bool and Eye objects are not operands of the verified functions',
    'the value semantics of each class (cxxvc/contracts.py fieldterm, cxxvc/sem.py axioms of the matrix/function algebra) is the specification and is trusted',
    'termination is not proved',
]


def start(pid, tier, seed):
    sys.path.insert(0, CX)
    base = json.load(open(BASE)) if os.path.exists(BASE) else {}
    keys = base.get('properties', {}).get(pid, [])
    if not keys:
        return None
    return Run(pid, tier, seed, keys, base)


class Run:
    def __init__(self, pid, tier, seed, keys, base):
        self.pid, self.tier, self.seed, self.keys, self.base = pid, tier, seed, keys, base
        self.tmp = tempfile.mkdtemp(prefix='verif_vc_')
        json.dump(keys, open(self.tmp + '/keys.json', 'w'))
        secs, total = (120, 420) if tier == 'quick' else (900, 2700)
        env = dict(os.environ, PYMBS_REPO=os.environ.get('VERIF_REPO', '/repo'))
        self.err = open(self.tmp + '/err', 'w')
        self.limit = total + 120
        self.p = subprocess.Popen(['python3-vt', CX + '/worker.py', self.tmp + '/out.json', str(secs), str(total), self.tmp + '/keys.json'], stdout=self.err, stderr=self.err, env=env)

    def replays(self, drv, case):
        """does the real library violate the property on this case?"""
        if not drv or not case:
            return None
        a = ['term', case[0], str(self.seed), '300'] + list(case[1:])
        try:
            r = subprocess.run([drv] + a, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return None
        f = [l for l in r.stdout.splitlines() if l.startswith('FAIL ')]
        return (a, f[0]) if f else None

    def finish(self, drv, tmp):
        import shutil
        try:
            try:
                self.p.wait(timeout=self.limit)
            except subprocess.TimeoutExpired:
                self.p.kill()
            try:
                d = json.load(open(self.tmp + '/out.json'))
            except Exception:
                d = None
            self.err.close()
            et = open(self.tmp + '/err').read()[-500:]
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        viol = []
        if d is None:
            return {'violations': [], 'coverage': {'functions_under_contract': [], 'verifier': 'the verifier gave no answer: ' + et}, 'assumptions': GENERAL}
        stat = {}
        unproved = []
        was = self.base.get('status', {})
        for r in d['results']:
            stat.setdefault(r['status'], []).append(r['key'])
            n = 0
            for f in r['fails']:
                if n >= 2 or f['obligation'] in self.base.get('open', {}).get(r['key'], []):
                    break
                hit = None
                for c in ([f['case']] if f['case'] else []) + f['cases']:
                    hit = self.replays(drv, c)
                    if hit:
                        break
                v = {'property': self.pid, 'function': r['key'], 'obligation': f['obligation'], 'path': f['path'], 'verifier_output': f['detail'], 'model': f['model'], 'back_end': 'normal forms + z3'}
                if hit:
                    v.update({'driver': hit[0], 'message': hit[1]})
                    viol.append(v)
                    n += 1
                elif was.get(r['key']) in ('proved', 'bounded') and (f['definite'] or (f['agree'] == 0 and not f['unknown'])):
                    viol.append(v)
                    n += 1
            if r['status'] not in ('proved', 'bounded'):
                unproved.append({'function': r['key'], 'status': r['status'], 'why': (r['undecided'][:1] or [[f['obligation'] + ': ' + f['detail'][:160] for f in r['fails'][:1]]])[0]})
        viol.sort(key=lambda v: 'driver' not in v)
        res = d['results']
        good = [r for r in res if r['status'] == 'proved']
        bnd = [r for r in res if r['status'] == 'bounded']
        cov = {
            'functions_under_contract': sorted(r['key'] for r in res),
            'proved_unbounded': sorted(r['key'] for r in good),
            'proved_for_explicit_matrices_up_to_3x3_otherwise_unbounded': sorted(r['key'] for r in bnd),
            'not_proved_covered_by_the_bounded_concrete_check_only': unproved,
            'obligations': sum(r['obligations'] for r in res), 'discharged': sum(r['obligations'] - len(r['fails']) for r in res),
            'discharged_in_fully_verified_functions': sum(r['obligations'] for r in good + bnd), 'paths': sum(r['paths'] for r in res),
            'back_end': 'z3 %s for path conditions, shapes, indices and numbers; normal forms of the matrix/function algebra (cxxvc/sem.py) for values' % z3v(),
            'smt_queries': sum(r['smt'] for r in res), 'solver_s': round(sum(r['tsmt'] for r in res), 1), 'verifier_cpu_s': round(sum(r['time'] for r in res), 1), 'verifier_wall_s': d['wall_s'],
            'functions_parsed': d['functions_parsed'],
            'contracts_used_at_call_sites': sorted({u for r in res for u in r['used']}),
            'inlined_bodies': sorted({u for r in res for u in r['inlined']}),
        }
        cov['checker_cmd'] = 'python3-vt cxxvc/run.py KEY (z3 through cxxvc/worker.py)'
        cov['trusted_base'] = ['clang 18 front end', 'cxxvc (interp.py, engine.py, loops.py: AST semantics and proof rules; sem.py: algebra; contracts.py: specification)', 'z3']
        under = set(self.base.get('status', {}))
        assumed = sorted({a for r in res for a in r['assumed']})
        out = GENERAL + ['assumed contract (external or not verified): ' + a for a in assumed]
        notp = sorted(k for k in cov['contracts_used_at_call_sites'] if was.get(k) not in ('proved', 'bounded'))
        if notp:
            out.append('contracts used at call sites although their own proof is incomplete: ' + ', '.join(notp))
        return {'violations': viol, 'coverage': cov, 'assumptions': out}


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return '?'
