"""Builds the Python extension of the library from the current tree (object files in a scratch directory)."""
import os, glob, hashlib, subprocess
INC = ['include', 'functions/include', 'graph/include', 'printer/include', 'writer/include', 'writer/lib', 'wrapper/include']
PY = '/opt/pymbs-venv/bin/python'


def build(repo, out):
    pinc = subprocess.run([PY, '-c', 'import sysconfig,numpy; print(sysconfig.get_paths()["include"]); print(numpy.get_include())'],
                          capture_output=True, text=True).stdout.split()
    inc = ' '.join('-I%s/symbolics/%s' % (repo, d) for d in INC) + ' ' + ' '.join('-I' + x for x in pinc)
    jobs = []
    for d in ('.', 'functions', 'graph', 'printer', 'writer', 'wrapper'):
        for s in sorted(glob.glob('%s/symbolics/%s/*.cpp' % (repo, d))):
            jobs.append((s, '%s/%s.po' % (out, hashlib.md5(s.encode()).hexdigest()[:12])))
    subprocess.run(['xargs', '-P8', '-L1', 'sh', '-c', 'g++ -O1 -fPIC -fpermissive -w %s -c "$0" -o "$1" 2>"$1.err"; true' % inc],
                   input='\n'.join('%s %s' % j for j in jobs), text=True)
    objs = [o for s, o in jobs if os.path.exists(o)]
    missing = [s for s, o in jobs if not os.path.exists(o)]
    so = out + '/symbolics.so'
    r = subprocess.run('g++ -shared -o %s %s' % (so, ' '.join(objs)), shell=True, capture_output=True, text=True)
    if r.returncode != 0:
        return None, r.stderr[-2000:]
    return so, missing


if __name__ == '__main__':
    import sys
    print(build(sys.argv[1], sys.argv[2]))
