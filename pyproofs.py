"""Deductive part of a check for the Python half: re-derive and discharge the obligations of one property (pyvc)."""
import json, os, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
ASSUME = [
    'machine arithmetic treated as mathematical: floats are reals; a constant that Python computes in floating point from constants is taken as the real number the double stands for',
    'contracts of the symbolic library (pyvc/shim.py): its operators and functions have the mathematical value (this is what S01-S08 show for the C++ code), len/shape/indexing behave as documented, der() of a variable is its registered derivative',
    'back end: an obligation x = y between terms of +, *, /, sqrt, sin, cos, solve is decided by evaluation at random points of GF(2^61-1) (polynomial identity testing; error probability below degree/2^61 per point): not a certificate, a false "discharged" is possible with that probability, a false alarm is not (a refuted obligation is confirmed with a witness in floating point)',
    'an arbitrary rotation matrix is parametrised by a unit quaternion with generic components (all but a set of measure zero); unknown vectors and tensors are generic symbols',
    'termination is not proved; numpy, copy and the Python interpreter behave as documented',
]


def start(pid, tier, seed):
    sys.path.insert(0, V)
    if not os.path.exists(os.path.join(V, 'pyvc', '__init__.py')):
        return None
    out = tempfile.mkdtemp(prefix='verif_py_')
    env = dict(os.environ, PYVC_REPO=os.environ.get('VERIF_REPO', '/repo'), PYTHONHASHSEED='0')
    err = open(out + '/err', 'w')
    p = subprocess.Popen(['python3-vt', '-W', 'ignore', '-m', 'pyvc.worker', pid, tier, str(seed), out + '/out.json'], cwd=V, stdout=err, stderr=err, env=env)
    return Run(pid, tier, seed, p, out, err)


REFUSALS = ('AssertionError', 'ValueError', 'ArithmeticError', 'ZeroDivisionError', 'RuntimeError', 'IndexError', 'KeyError', 'UnboundLocalError', 'Exception')


class Run:
    def __init__(self, pid, tier, seed, p, out, err):
        self.pid, self.tier, self.seed, self.p, self.out, self.err = pid, tier, seed, p, out, err

    def finish(self):
        import shutil
        d = None
        try:
            try:
                self.p.wait(timeout=700 if self.tier == 'quick' else 3300)
            except subprocess.TimeoutExpired:
                self.p.kill()
            self.err.close()
            try:
                d = json.load(open(self.out + '/out.json'))
            except Exception:
                d = None
            et = open(self.out + '/err').read()[-500:]
        finally:
            shutil.rmtree(self.out, ignore_errors=True)
        if d is None:
            return {'violations': [], 'coverage': {'functions_under_contract': [], 'verifier': 'the verifier gave no answer: ' + et}, 'assumptions': ASSUME}
        viol, unproved = [], []
        for r in d['results']:
            if r['status'] in ('proved', 'skip'):
                continue
            unproved.append({'obligation': r['key'], 'status': r['status'], 'why': r.get('why'), 'at': r.get('at')})
            v = {'property': self.pid, 'obligation': r['key'], 'failed': r.get('why'), 'at': r.get('at'), 'witness': r.get('witness'),
                 'pyvc': r['key'], 'seed': r.get('seed'), 'back_end': 'polynomial identity testing over GF(2^61-1), witness in floating point',
                 'replay_with': 'python3-vt /verif/check.py --replay <this file> (runs the real Python sources on the input of the obligation again)'}
            if r['status'] == 'failed':
                v['found'] = bool(r.get('witness') or r.get('fact'))
                viol.append(v)
            elif r['status'] == 'crash' and r.get('refused'):
                v['found'] = False      # the code raises on an admissible input
                viol.append(v)
        viol.sort(key=lambda v: not v['found'])
        res = d['results']
        ok = [r for r in res if r['status'] == 'proved']
        cov = {
            'functions_under_contract': sorted({f for r in res for f in r['func'].split(', ')}),
            'contracts': len(res),
            'proved_unbounded': sorted(r['key'] for r in ok if not r['bounded']),
            'bounded': sorted('%s [%s]' % (r['key'], r['bounded']) for r in ok if r['bounded'])[:60],
            'bounded_count': len([r for r in ok if r['bounded']]),
            'not_proved': unproved,
            'obligations': sum(r.get('n', 0) for r in res), 'discharged': sum(r.get('n', 0) for r in ok),
            'discharged_unbounded': sum(r.get('n', 0) for r in ok if not r['bounded']),
            'back_end': 'pyvc: symbolic execution of the real Python sources on a term-building stand-in of the C++ module; equalities decided over GF(2^61-1) (pyvc/terms.py)',
            'verifier_cpu_s': round(sum(r['secs'] for r in res), 1), 'verifier_wall_s': d['wall_s'],
            'checker_cmd': 'python3-vt -W ignore -m pyvc.run ' + self.pid,
            'trusted_base': ['pyvc (terms.py: field arithmetic and decision; shim.py: contracts of the symbolic library; gen.py, mbs.py: specification in terms of vectors and rotation matrices; k0*.py: contracts)'],
        }
        cov.update(evaluations=cov['obligations'], distinct_nontrivial=cov['discharged'],
                   rule='one obligation = one scalar equation (or decided fact) about the result of running a real function on generic arguments, valid for all values of its symbols; distinct and non-trivial = generated by a different clause, case or component and discharged',
                   samples=[r['key'] for r in res[:3] + res[-3:]])
        return {'violations': viol, 'coverage': cov, 'assumptions': list(ASSUME)}
