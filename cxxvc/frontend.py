"""Front end: clang's own AST of the real sources, dumped on every run.

Every translation unit of /repo that a check needs is parsed by clang++-18
(-fsyntax-only -ast-dump=json, restricted to namespace Symbolics) with the include
paths and flags of the project's build.  Nothing is copied or rewritten by hand: the
verification-condition generator (engine.py) walks these nodes.
"""
import json, subprocess, os, sys, hashlib, concurrent.futures as cf

REPO = os.environ.get('PYMBS_REPO', '/repo')
CLANG = 'clang++-18'
INCDIRS = ('include', 'functions/include', 'graph/include', 'printer/include', 'writer/include')


class Node:
    __slots__ = ('k', 'ty', 'name', 'inner', 'val', 'op', 'ck', 'ref', 'id', 'x', 'line')

    def __repr__(self):
        return '<%s %s %s @%s>' % (self.k, self.name or '', self.ty or '', self.line)


def _ty(d):
    t = d.get('type')
    if not t:
        return None
    return t.get('desugaredQualType') or t.get('qualType')


class TU:
    def __init__(self, path):
        self.path = path
        self.decls = {}        # id -> raw info dict
        self.funcs = {}        # id -> Func


class Func:
    __slots__ = ('key', 'mangled', 'params', 'body', 'cls', 'name', 'tu', 'ret', 'inits', 'static', 'kind', 'line', 'virtual')


def compress(d, tu, ctx):
    n = Node()
    n.k = d.get('kind')
    n.ty = _ty(d)
    n.name = d.get('name')
    n.val = d.get('value')
    n.op = d.get('opcode')
    n.ck = d.get('castKind')
    n.id = d.get('id')
    n.line = None
    loc = d.get('range', {}).get('begin', {})
    if 'line' in loc:
        ctx['line'] = loc['line']
    n.line = ctx.get('line')
    n.ref = None
    n.x = None
    r = d.get('referencedDecl')
    if r:
        n.ref = (r.get('id'), r.get('name'), r.get('kind'))
    if 'referencedMemberDecl' in d:
        n.ref = (d['referencedMemberDecl'], d.get('name'), 'member')
    x = {}
    for key in ('isArrow', 'isPostfix', 'hasElse', 'init', 'ctorType', 'isVirtual', 'isArray', 'hasInit', 'hasVar', 'anyInit', 'tagUsed', 'elidable', 'initializer_list'):
        if key in d:
            x[key] = d[key]
    if 'ctorType' in d:
        x['ctorType'] = d['ctorType'].get('qualType')
    if 'decl' in d and isinstance(d['decl'], dict):
        x['decl'] = (d['decl'].get('id'), d['decl'].get('name'))
    if 'typeArg' in d: x['typeArg']=d['typeArg'].get('qualType')
    if x:
        n.x = x
    n.inner = [compress(c, tu, ctx) if c else None for c in d.get('inner', [])] if 'inner' in d else []
    return n


FK = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')


def _walk(d, tu, cls, ctx):
    k = d.get('kind')
    if not k:
        return
    loc = d.get('loc', {})
    if 'line' in loc:
        ctx['line'] = loc['line']
    elif 'expansionLoc' in loc and 'line' in loc['expansionLoc']:
        ctx['line'] = loc['expansionLoc']['line']
    if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
        tu.decls[d['id']] = ('class', d.get('name'), d)
        bases = [b['type'].get('desugaredQualType') or b['type']['qualType'] for b in d.get('bases', [])]
        if d.get('completeDefinition'):
            tu.nested[(cls, d.get('name'))] = tu.classes[d.get('name')] = dict(bases=bases, fields=[(c.get('name'), _ty(c)) for c in d.get('inner', []) if c and c.get('kind') == 'FieldDecl'])
        for c in d.get('inner', []):
            if c:
                _walk(c, tu, d.get('name'), ctx)
        return
    if k in ('NamespaceDecl', 'LinkageSpecDecl', 'TranslationUnitDecl', 'FunctionTemplateDecl', 'ClassTemplateDecl'):
        tu.decls.setdefault(d.get('id'), (k, d.get('name'), None))
        for c in d.get('inner', []):
            if c:
                _walk(c, tu, cls, ctx)
        return
    if k == 'EnumDecl':
        v = -1
        for c in d.get('inner', []):
            if c and c.get('kind') == 'EnumConstantDecl':
                v += 1
                e = c
                while e is not None and 'value' not in e:
                    e = next((x for x in e.get('inner', []) if x and x.get('kind') != 'FullComment'), None)
                if e is not None and str(e['value']).lstrip('-').isdigit():
                    v = int(e['value'])
                tu.enums[c['name']] = v
        return
    if k == 'FieldDecl':
        tu.decls[d['id']] = ('field', d.get('name'), _ty(d))
        return
    if k == 'VarDecl':
        tu.decls[d['id']] = ('var', d.get('name'), _ty(d))
        if d.get('mangledName'):
            tu.vars[d['id']] = d.get('mangledName')
        if 'init' in d and d.get('inner'):
            tu.globals_init[d.get('mangledName') or d.get('name')] = compress(d['inner'][-1], tu, dict(ctx))
        return
    if k in FK:
        f = Func()
        f.mangled = d.get('mangledName')
        f.name = d.get('name')
        f.cls = cls
        f.tu = tu.path
        f.kind = k
        f.ret = d.get('type', {}).get('qualType')
        f.static = d.get('storageClass') == 'static'
        f.virtual = d.get('virtual', False)
        f.line = ctx.get('line')
        f.params = []
        f.body = None
        f.inits = []
        f.key = None
        if cls is None and 'parentDeclContextId' in d:
            p = tu.decls.get(d['parentDeclContextId'])
            if p and p[0] == 'class':
                f.cls = p[1]
        c2 = {'line': ctx.get('line')}
        for c in d.get('inner', []):
            if not c:
                continue
            if c.get('kind') == 'ParmVarDecl':
                f.params.append((c['id'], c.get('name'), _ty(c), compress(c, tu, dict(c2))))
            elif c.get('kind') == 'CompoundStmt':
                f.body = compress(c, tu, c2)
            elif c.get('kind') == 'CXXCtorInitializer':
                f.inits.append((c.get('anyInit'), (c.get('baseInit') or {}).get('qualType'), [compress(e, tu, dict(c2)) for e in c.get('inner', []) if e]))
        prev = d.get('previousDecl')
        tu.funcs[d['id']] = f
        tu.decls[d['id']] = ('func', f.name, f)
        if prev and prev in tu.funcs:
            pf = tu.funcs[prev]
            if f.cls is None:
                f.cls = pf.cls
            if pf.static:
                f.static = True
        return


def local_functions(path):
    """names of functions defined in the main file outside of any class: candidates that the namespace filter misses"""
    import re
    try:
        txt = open(path, encoding='latin-1').read()
    except OSError:
        return []
    txt = re.sub(r'/\*.*?\*/', lambda m: '\n' * m.group(0).count('\n'), txt, flags=re.S)
    txt = re.sub(r'//[^\n]*', '', txt)
    out = []
    for m in re.finditer(r'^[ \t]*(?:static\s+|inline\s+|const\s+|template\s*<[^>]*>\s*)*[A-Za-z_][\w:<>, ]*[\w>&*][&*\s]+([A-Za-z_]\w*)\s*\(([^;{}]*)\)\s*\{', txt, re.M):
        n = m.group(1)
        if n not in ('if', 'for', 'while', 'switch', 'return', 'catch', 'main') and n not in out:
            out.append(n)
    return out


def _docs(s):
    dec = json.JSONDecoder()
    i = 0
    docs = []
    n = len(s)
    while i < n:
        while i < n and s[i] in ' \n\r\t':
            i += 1
        if i >= n:
            break
        o, i = dec.raw_decode(s, i)
        docs.append(o)
    return docs


def _noaslr():
    try:
        return subprocess.run(['setarch', '-R', 'true'], capture_output=True).returncode == 0
    except OSError:
        return False


def _load(path):
    inc = ['-I%s/symbolics/%s' % (REPO, d) for d in INCDIRS]
    base = [CLANG, '-fsyntax-only', '-fpermissive', '-w', '-ferror-limit=0', *inc, '-Xclang', '-ast-dump=json']

    def dump(pre, flt):
        p = subprocess.run(pre + base + (['-Xclang', '-ast-dump-filter=' + flt] if flt else []) + [path], capture_output=True, text=True, errors='replace')
        if p.returncode != 0 and not p.stdout:
            raise RuntimeError('clang failed on %s: %s' % (path, p.stderr[-2000:]))
        return p.stdout
    names = local_functions(path)
    if not names:
        docs = _docs(dump([], 'Symbolics'))
    elif _noaslr():
        # the same addresses, hence the same ids, in every run
        docs = _docs(dump(['setarch', '-R'], 'Symbolics'))
        have = {d.get('id') for d in docs}
        for nm in names:
            for d in _docs(dump(['setarch', '-R'], nm)):
                if d.get('kind') in FK and d.get('id') not in have and d.get('name') == nm and 'parentDeclContextId' not in d:
                    have.add(d.get('id'))
                    docs.append(d)
    else:
        docs = []
        p = subprocess.Popen(base + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace')
        chunk = []
        for l in p.stdout:
            if l.startswith('    {'):
                chunk = [l]
            elif l.startswith('    }'):
                chunk.append('}')
                head = ''.join(chunk[:60])
                if '"name": "Symbolics"' in head or any('"name": "%s"' % nm in head for nm in names):
                    docs.append(json.loads(''.join(chunk)))
                chunk = []
            elif chunk:
                chunk.append(l)
        p.wait()
    tu = TU(path)
    tu.classes, tu.nested = {}, {}
    tu.enums = {}
    tu.vars = {}
    tu.globals_init = {}
    ctx = {}
    for d in docs:
        _walk(d, tu, None, ctx)
    # class docs keep raw json: drop
    for k, v in list(tu.decls.items()):
        if v[0] == 'class':
            tu.decls[k] = ('class', v[1], None)
    return tu


class Program:
    """All translation units that were asked for, with a cross-TU function index."""

    def __init__(self, paths, jobs=8):
        self.tus = {}
        self.funcs = {}      # demangled key -> Func with body
        self.classes, self.nested = {}, {}
        self.enums = {}
        self.bymangled = {}
        self.globals_init = {}
        with cf.ProcessPoolExecutor(jobs) as ex:
            for tu in ex.map(_load, paths):
                self.tus[tu.path] = tu
        names = sorted({f.mangled for t in self.tus.values() for f in t.funcs.values() if f.mangled})
        dm = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
        self.demangle = dict(zip(names, dm))
        for t in self.tus.values():
            self.classes.update(t.classes)
            self.nested.update(t.nested)
            self.enums.update(t.enums)
            self.globals_init.update(t.globals_init)
            for f in t.funcs.values():
                f.key = self.demangle.get(f.mangled)
                if f.key:
                    # strip the return type of template instantiations
                    if f.key.startswith(('Symbolics::BasicPtr ', 'boost::', 'bool ', 'void ')) and '<' in f.key:
                        pass
                    if f.body is not None:
                        old = self.funcs.get(f.key)
                        # prefer the definition in its own file
                        if old is None:
                            self.funcs[f.key] = f
                elif False:
                    pass
        self.virtuals = {f.key for t in self.tus.values() for f in t.funcs.values() if f.virtual and f.key}
        self.enumval = {v: k for k, v in self.enums.items() if k.startswith('Type_')}

    def find(self, suffix):
        return [k for k in self.funcs if suffix in k]


def sources():
    import glob
    out = []
    for sub in ('', 'functions/', 'graph/', 'printer/', 'writer/'):
        out += sorted(glob.glob('%s/symbolics/%s*.cpp' % (REPO, sub)))
    dead = '%s/symbolics/Neg.cpp' % REPO       # not part of the build
    return [p for p in out if p != dead]


if __name__ == '__main__':
    import time
    t = time.time()
    P = Program(sources())
    print(len(P.funcs), 'functions with bodies', time.time() - t)
    for a in sys.argv[1:]:
        for k in P.find(a):
            print(k)
