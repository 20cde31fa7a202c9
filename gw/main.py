"""gw/main.py MODE START COUNT MAXFAIL [EXT]: one line per failing case, then DONE; run with the library's interpreter"""
import sys, os, json, importlib.util, importlib.machinery, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path[:0] = [HERE, os.path.join(HERE, '..', 'cxxvc'), os.path.join(HERE, '..'), REPO]


def library(ext):
    if ext:
        l = importlib.machinery.ExtensionFileLoader('pymbs.symbolics.symbolics', ext)
        sp = importlib.util.spec_from_file_location('pymbs.symbolics.symbolics', ext, loader=l)
        m = importlib.util.module_from_spec(sp)
        l.exec_module(m)
        sys.modules['pymbs.symbolics.symbolics'] = m
    import types
    # the package itself imports the user interface
    for n in ('pymbs',):
        p = types.ModuleType(n)
        p.__path__ = [os.path.join(REPO, 'pymbs')]
        sys.modules[n] = p
    import pymbs.symbolics as S
    if ext:
        S.symbolics = sys.modules['pymbs.symbolics.symbolics']
    return S


def modes():
    import graphcheck, codecheck
    d = {'graph': graphcheck.case, 'cyclic': graphcheck.cyclic, 'code': codecheck.case}
    for l in codecheck.PROFS:
        d['code-' + l] = lambda seed, S, l=l: codecheck.case(seed, S, l)
    return d


def main():
    mode, start, count, maxfail = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    S = library(sys.argv[5] if len(sys.argv) > 5 else None)
    fn = modes()[mode]
    sys.stdout.flush()
    ran = fails = done = 0
    seed = start
    dn = os.open(os.devnull, os.O_WRONLY)
    while seed < start + count and fails < maxfail:
        # a child runs cases until one crashes it
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            out = os.fdopen(w, 'w')
            for sd in range(seed, min(start + count, seed + 200)):
                out.write('S %d\n' % sd)
                out.flush()
                try:
                    x = fn(sd, S)
                    out.write('E %d\n' % (1 if x else 0))
                except Exception as e:
                    if hasattr(e, 'pid'):
                        d = {'property': e.pid, 'what': str(e)}
                    else:
                        d = {'property': None, 'what': traceback.format_exc()[-1500:]}
                    out.write('F %s\n' % json.dumps(d))
                out.flush()
            out.close()
            os._exit(0)
        os.close(w)
        cur, ended = None, True
        for l in os.fdopen(r):
            k, _, v = l.rstrip('\n').partition(' ')
            if k == 'S':
                cur, ended = int(v), False
            elif k == 'E':
                ended = True
                done += 1
                ran += int(v)
            else:
                ended = True
                done += 1
                fails += 1
                print('FAIL ' + json.dumps(dict(json.loads(v), seed=cur, mode=mode)), flush=True)
        _, st = os.waitpid(pid, 0)
        if not ended:
            done += 1
            fails += 1
            print('FAIL ' + json.dumps({'property': 'crash', 'what': 'the process died (status %d)' % st, 'seed': cur, 'mode': mode}), flush=True)
        seed = (cur if cur is not None else seed) + 1
    print('DONE cases=%d compared=%d' % (done, ran))


if __name__ == '__main__':
    main()
