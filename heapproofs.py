"""Deductive part of a check for the equation graph: re-derive and discharge the obligations of one property (heapvc)."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.abspath(__file__))
PROPS = ('G01', 'S06')
COMMON = [
    'heap: references and fields as in a typed heap (one map per field); std containers, iterators and boost::intrusive_ptr behave as documented; an allocation gives a reference that was in no container before',
    'int arithmetic without overflow; termination of loops and recursions is not proved (partial correctness)',
]
ASSUME = {'G01': COMMON + [
    'sets and maps ordered by address are traversed in an arbitrary order without repetition',
    'observers of symbols and expressions (shape, kind, name, state of a symbol) are pure functions; nothing else changes them during graph construction',
], 'S06': COMMON + [
    'an expression stands for its value, a real number: +, -, negation, division of BasicPtr, Int, Real and Zero are exact (that the library builds such expressions is S01); the product is an arbitrary function of two values, so nothing is assumed of it but that equal arguments give equal products',
    'the sum of a matrix product is the one the loop of the contract of operator* builds up from the left, in the order of the inner index',
    'references that getArg and get return are used as values; parents of an expression (addParent, removeParent) are not modelled',
    'a op= a with an operand that is the matrix itself is left out where the contract of a scalar operand is meant; SymmetricMatrix op= Matrix of another kind is left out',
    'indices are integers: no wrap-around of size_t, apart from the bounds the obligations check',
]}


def start(pid, tier, seed):
    if pid not in PROPS:
        return None
    out = tempfile.mkdtemp(prefix='verif_heap_')
    env = dict(os.environ, PYMBS_REPO=os.environ.get('VERIF_REPO', '/repo'), PYTHONHASHSEED='0')
    err = open(out + '/err', 'w')
    p = subprocess.Popen(['python3-vt', '-W', 'ignore', V + '/heapvc/run.py', '--json', pid, '8' if tier == 'quick' else '40', out + '/out.json'], cwd=V, stdout=err, stderr=err, env=env, start_new_session=True)
    return Run(pid, tier, p, out, err)


class Run:
    def __init__(self, pid, tier, p, out, err):
        self.pid, self.tier, self.p, self.out, self.err = pid, tier, p, out, err

    def finish(self):
        d = None
        try:
            try:
                self.p.wait(timeout=500 if self.tier == 'quick' else 3000)
            except subprocess.TimeoutExpired:
                import signal
                os.killpg(self.p.pid, signal.SIGKILL)
            self.err.close()
            try:
                d = json.load(open(self.out + '/out.json'))
            except Exception:
                d = None
            et = open(self.out + '/err').read()[-500:]
        finally:
            shutil.rmtree(self.out, ignore_errors=True)
        if d is None:
            return {'violations': [], 'coverage': {'functions_under_contract': [], 'verifier': 'the verifier gave no answer: ' + et}, 'assumptions': list(ASSUME[self.pid])}
        viol, unproved = [], []
        for r in d['results']:
            if r['status'] == 'proved':
                continue
            unproved.append({'function': r['key'], 'status': r['status'], 'open': [x[1] for x in r['open']][:8], 'why': r.get('why')})
            if r['status'] == 'failed':
                viol.append({'property': self.pid, 'function': r['key'], 'obligations': [x[1] for x in r['open']],
                             'failed': [x[0] for x in r['failed']], 'counterexample': [x[1] for x in r['failed']],
                             'unrolled': r.get('unrolled'), 'back_end': 'z3: the negated contract of the function, loops unrolled, in a heap of a few references, is satisfiable',
                             'heapvc': r['key'], 'replay_with': 'python3-vt /verif/check.py --replay <this file>'})
        res = d['results']
        ok = [r for r in res if r['status'] == 'proved']
        cov = {
            'functions_under_contract': sorted(r['key'] for r in res),
            'proved_unbounded': sorted(r['key'] for r in ok),
            'not_proved': unproved,
            'obligations': sum(r['obligations'] for r in res), 'discharged': sum(r['discharged'] for r in res),
            'paths': sum(r['paths'] for r in res),
            'inlined': sorted({f for r in res for f in r['inlined']}),
            'returning_runs_satisfiable': sum(1 for r in ok if r.get('reachable')),
            'back_end': 'heapvc: symbolic execution of the functions (clang AST of the current sources) over a typed heap, loops by invariants, calls by contract; obligations decided by z3 (quantified first-order logic)',
            'solver_s': round(sum(r['smt_s'] for r in res), 1), 'verifier_wall_s': d['wall_s'],
            'checker_cmd': 'python3-vt heapvc/run.py',
            'assumed_contracts': d['assumed'],
            'trusted_base': ['heapvc (core.py, execute.py: semantics of the C++ subset; contracts.py, deps.py, assign.py, scan.py, matrix.py: contracts)', 'clang 18 (AST)', 'z3'],
        }
        return {'violations': viol, 'coverage': cov, 'assumptions': list(ASSUME[self.pid]) + ['assumed contract: ' + x for x in d['assumed']]}
