"""The files the writers produce with their options: wrappers, s-function text, symbolic Matlab files, functional mock-up units, C#."""
import os, re, ast, ctypes, subprocess, sys, types
import xml.dom.minidom
import numpy as np
from files import Bad, Skip, C, F90, M, MoS, Env, read, put, valueof
import files
import lang
from terms import Bad as TBad
from lang import SyntaxErr, MeaningErr


def module(name, text):
    m = types.ModuleType(name)
    m.__file__ = name
    sys.modules[name] = m
    exec(compile(text, name, 'exec'), m.__dict__)
    return m


def setin(m, name, inputs):
    if not hasattr(m, '_inputs'):
        return
    miss = [k for k in m._inputs if k not in inputs]
    if miss:
        raise Bad('%s: %s is no input' % (name, miss))
    m.setInputs({k: inputs[k] for k in m._inputs})


def seen_twice(t, what):
    """keys of dictionaries once, no name assigned twice in a function"""
    files.once(t, what)


# ------------------------------------------------------------------ Python around the C functions
class CWrap(C):
    first = True

    def __init__(self, s, d, name):
        C.__init__(self, s, d, name)
        self.mods = {}
        for part in ('sensors', 'der_state', 'visual'):
            if part not in self.fns:
                continue
            t = read('%s/%s_%s_CWrapper.py' % (d, name, part))
            if t is None:
                raise Bad('no Python wrapper for %s' % part)
            seen_twice(t, part)
            self.mods[part] = module('%s_%s_CWrapper' % (name, part), t)

    def defaults(self):
        out = {}
        for part, m in self.mods.items():
            for k, v in getattr(m, '_inputs', {}).items():
                out.setdefault(k, []).append(np.asarray(v, float))
        return out

    def run(self, y, time, inputs):
        out = {}
        plain, self.first = self.first, False   # the first point is the one of the defaults
        ins = {k: (float(v) if np.shape(v) == () else np.ascontiguousarray(v, float).reshape(-1) if v.shape[1] == 1 else np.ascontiguousarray(v, float)) for k, v in inputs.items()}
        for part, m in self.mods.items():
            if not plain:
                setin(m, part, ins)
        try:
            m = self.mods.get('der_state')
            if m:
                out['yd'] = np.asarray(m.ode_int(float(time), np.array(y, float)), float)
            m = self.mods.get('sensors')
            if m:
                out.update(m.graphSensors(float(time), np.array(y, float)))
            m = self.mods.get('visual')
            if m:
                out.update(m.graphVisualSensors(np.array(y, float)))
        except ctypes.ArgumentError as e:
            raise Bad('arguments of the wrapped function: %s' % e)
        return out


# ------------------------------------------------------------------ text for an s-function: included where y, yd, inputs and sensors are known
class CAll(C):
    visual = True

    def __init__(self, s, d, name):
        self.s, self.d, self.name = s, d, name
        t = read('%s/%s.c' % (d, name))
        if t is None:
            raise Bad('no file')
        decl = lambda n, sh: 'double %s%s' % (n, '' if sh == () else '[%d]' % sh[0] if sh[1] == 1 else '[%d][%d]' % sh)
        outs = [(n, sh) for n, k, sh, e in s.vars if k == files_SENSOR or (self.visual and k == files_GRAPHIC)]
        self.outs = outs
        o = '#include <math.h>\n#include <string.h>\n#include "functionmodule.c"\n'
        o += 'int %s_all(double time, double *y, double *yd, double **in, double **out) {\n' % name
        for i, (n, sh, v) in enumerate(s.inputs):
            o += decl(n, sh) + '; memcpy(&%s, in[%d], sizeof(%s));\n' % (n, i, n)
        for n, sh in outs:
            o += decl(n, sh) + ';\n'
        o += '#include "%s.c"\n' % name
        for i, (n, sh) in enumerate(outs):
            o += 'memcpy(out[%d], &%s, sizeof(%s));\n' % (i, n, n)
        o += 'return 0; }\n'
        fn = '%s/%s_all.c' % (d, name)
        open(fn, 'w').write(o)
        so = fn[:-2] + '.so'
        r = subprocess.run(['gcc', '-O0', '-w', '-ftrivial-auto-var-init=pattern', '-shared', '-fPIC', fn, '-o', so, '-lm'], capture_output=True, text=True)
        if r.returncode:
            raise Bad('%s.c does not compile: %s' % (name, '; '.join(x for x in r.stderr.splitlines() if 'error' in x)[:300]))
        self.f = getattr(ctypes.CDLL(so), name + '_all')

    def run(self, y, time, inputs):
        D = ctypes.POINTER(ctypes.c_double)
        arr = lambda v: np.ascontiguousarray(np.array(v, float).reshape(-1))
        i = [arr(inputs[n]) for n, sh, v in self.s.inputs]
        o = [np.full(int(np.prod(sh)) if sh else 1, np.nan) for n, sh in self.outs]
        P = lambda l: (D * max(1, len(l)))(*[v.ctypes.data_as(D) for v in l])
        yy, yd = arr(y), np.full(len(y), np.nan)
        self.f(ctypes.c_double(time), yy.ctypes.data_as(D), yd.ctypes.data_as(D), P(i), P(o))
        out = {'yd': yd}
        for (n, sh), v in zip(self.outs, o):
            out[n] = v.reshape(sh) if sh else v
        return out


class CAllNoVis(CAll):
    visual = False


class CNoVis(C):
    visual = False

    def __init__(self, s, d, name):
        C.__init__(self, s, d, name)
        if 'visual' in self.fns:
            raise Bad('a file for visual sensors although none was wanted')


# ------------------------------------------------------------------ Python around the Fortran subroutines
class F90Wrap(F90):
    first = True

    def __init__(self, s, d, name):
        F90.__init__(self, s, d, name)
        self.mods = {}
        for part in ('der_state', 'sensors', 'visual'):
            t = read('%s/%s_%s_F90Wrapper.py' % (d, name, part))
            if t is None:
                if part in self.fns:
                    raise Bad('no Python wrapper for %s' % part)
                continue
            try:
                seen_twice(t, part)
            except SyntaxError as e:
                raise Bad('%s wrapper: %s' % (part, e))
            if part not in self.fns:   # nothing to wrap
                self.mods[part] = module('%s_%s_F90Wrapper' % (name, part), t)
                continue
            c = types.ModuleType('%s_%s_compiledF90' % (name, part))
            sys.modules[c.__name__] = c
            setattr(c, ('%s_%s' % (name, part)).lower(), self.f2py(part))
            self.mods[part] = module('%s_%s_F90Wrapper' % (name, part), t)

    def f2py(self, part):
        """the function f2py makes of a subroutine: arguments of intent(in) in, those of intent(out) returned in their order"""
        f, ps, dims = self.fns[part]
        t = read('%s/%s_%s.f90' % (self.d, self.name, part))
        outs = {m.group(1).lower() for m in re.finditer(r'intent\(out\)\s*::\s*(\w+)', t)}
        ins = [p for p in ps if p not in outs]
        D = ctypes.POINTER(ctypes.c_double)

        def call(*a):
            if len(a) != len(ins):
                raise Bad('%s: %d arguments for %s' % (part, len(a), ins))
            keep = {}
            for n, v in zip(ins, a):
                sh = dims.get(n)
                x = np.asarray(v, float)
                if x.size != (int(np.prod(sh)) if sh else 1):
                    raise Bad('%s: argument %s has %d elements instead of %s' % (part, n, x.size, sh))
                keep[n] = np.array(x.reshape(sh) if sh else x, float).flatten(order='F')
            for n in ps:
                if n in outs:
                    keep[n] = np.full(int(np.prod(dims[n])) if dims.get(n) else 1, np.nan)
            f(*[keep[n].ctypes.data_as(D) for n in ps])
            r = [keep[n].reshape(dims[n], order='F') if dims.get(n) else float(keep[n][0]) for n in ps if n in outs]
            return r[0] if len(r) == 1 else tuple(r)
        return call

    def defaults(self):
        return CWrap.defaults(self)

    def run(self, y, time, inputs):
        out = {}
        plain, self.first = self.first, False
        for part, m in self.mods.items():
            if not plain:
                setin(m, part, inputs)
        if 'der_state' in self.mods:
            out['yd'] = np.asarray(self.mods['der_state'].ode_int(time, np.array(y, float)), float).reshape(-1)
        if 'sensors' in self.mods:
            out.update(self.mods['sensors'].graphSensors(time, np.array(y, float)))
        if 'visual' in self.mods:
            out.update(self.mods['visual'].graphVisualSensors(np.array(y, float)))
        return out


# ------------------------------------------------------------------ Matlab
class MSim(M):
    """the start of the simulation: initial values in the order of the states"""

    def __init__(self, s, d, name):
        M.__init__(self, s, d, name)
        t = read('%s/%s_sim.m' % (d, name))
        if t is None:
            raise Bad('no simulation file')
        t = re.sub(r'%[^\n]*', '', t)
        env = Env()
        for n, sh, v in s.states:
            m = re.findall(r'^\s*%s0 = (.*?);\s*$' % n, t, re.M | re.S)
            if len(m) != 1:
                raise Bad('initial value of %s given %d times' % (n, len(m)))
            env.vals[n + '0'] = np.asarray(valueof('m', m[0], env), float).reshape(-1)
            if env.vals[n + '0'].size != max(1, int(np.prod(sh))) or not np.allclose(env.vals[n + '0'], np.asarray(v, float).reshape(-1), rtol=1e-9):
                raise Bad('initial value of %s is %s instead of %s' % (n, env.vals[n + '0'], v))
        m = re.findall(r'^y0 = \[?(.*?)\]?;\s*$', t, re.M)
        if len(m) != 1 or [x.strip() for x in m[0].split(';')] != [n + '0' for n, sh in s.ordered]:
            raise Bad('initial state %s' % m)
        if len(re.findall(r'ode15s\(@%s_der_state, tSpan, y0' % name, t)) != 1:
            raise Bad('the simulation does not integrate the model')


class MSym(M):
    def __init__(self, s, d, name):
        self.s, self.d, self.name = s, d, name
        self.parts = {p: read('%s/%s_%s_symbolic.m' % (d, name, p)) for p in ('der_state', 'sensors')}

    def defaults(self):
        return {}

    def stmts(self, t):
        t = re.sub(r'%[^\n]*', '', t)
        out, cur, depth = [], '', 0
        for l in t.split('\n'):
            if re.match(r'^\s*(function\b.*|end)\s*$', l):
                continue
            cur += ' ' + l.strip()
            depth = cur.count('(') + cur.count('[') - cur.count(')') - cur.count(']')
            if depth == 0:
                x = cur.strip()
                if x:
                    out.append(x[:-1].strip() if x.endswith(';') else x)
                cur = ''
        if cur.strip():
            raise Bad('statement without end: ' + cur.strip()[:80])
        return out

    def run(self, y, time, inputs):
        out, shapes = {}, self.s.shapes()
        shapes.update({'der_' + n: sh for n, sh, v in self.s.states})
        known = {}
        k = 0
        for n, sh in self.s.ordered:
            m = int(np.prod(sh)) if sh else 1
            known[n] = float(y[k]) if sh == () else np.array(y[k:k + m], float).reshape(sh)
            k += m
        known.update(inputs)
        vals = self.s.values(dict(known, time=time))
        for n, sh, t in self.s.params + self.s.consts:
            known[n] = vals[n]
        for part, t in self.parts.items():
            if t is None:
                continue
            env = Env()
            for st in self.stmts(t):
                if st == 'syms time':
                    env.vals['time'] = time
                    continue
                l, r = [x.strip() for x in st.split('=', 1)]
                m = re.match(r"^sym \('(\w+)'\s*(?:,\s*\[(\d+) (\d+)\])?\)$", r)
                if m:
                    if m.group(1) != l or l not in known or l in env.vals:
                        raise Bad('%s: %s' % (part, st))
                    sh = (int(m.group(2)), int(m.group(3))) if m.group(2) else ()
                    if sh != shapes[l]:
                        raise Bad('%s: %s has dimensions %s instead of %s' % (part, l, sh, shapes[l]))
                    env.vals[l] = known[l]
                elif l == 'yd':
                    m = re.match(r'^\[(.*)\]$', r)
                    out['yd'] = np.concatenate([np.asarray(valueof('m', x.strip(), env), float).reshape(-1) for x in m.group(1).split(';')])
                elif l.startswith('S.'):
                    if l[2:] in out:
                        raise Bad('%s: %s returned twice' % (part, l))
                    out[l[2:]] = valueof('m', r, env)
                elif re.match(r'^\w+$', l):
                    put(env, shapes, l, None, valueof('m', r, env), 'm')
                else:
                    raise Bad('left side %r' % l)
        return out


# ------------------------------------------------------------------ Modelica
class MoPartial(MoS):
    """inputs are variables of a partial model within a package"""

    def __init__(self, s, d, name):
        fn = '%s/%s.mo' % (d, name)
        t = read(fn)
        if t is None:
            raise Bad('no file')
        body = re.sub(r'//[^\n]*', '', t)
        m = re.match(r'\s*within Pack\.Age;\s*(partial )?model ', body)
        if not m:
            raise Bad('structure of the model')
        used = any(re.search(r'\b%s\b' % n, body) for n, sh, v in s.inputs)
        if bool(m.group(1)) != used:
            raise Bad('%s model with %s inputs' % ('partial' if m.group(1) else 'complete', 'some' if used else 'no'))
        t = re.sub(r'^\s*within Pack\.Age;', '', body)
        t = re.sub(r'^\s*partial model', 'model', t)
        open(fn, 'w', encoding='latin-1').write(t)
        MoS.__init__(self, s, d, name)

    def want(self):
        w = MoS.want(self)
        w.update({n: (None, sh) for n, sh, v in self.s.inputs})
        return w


# ------------------------------------------------------------------ functional mock-up unit
TEMPLATE_H = '''
#include <stdio.h>
#include <string.h>
typedef double fmiReal; typedef unsigned int fmiValueReference; typedef char fmiBoolean; typedef void *fmiComponent;
typedef struct { double nextEventTime; } fmiEventInfo;
#define fmiTrue 1
#define fmiFalse 0
typedef struct { double time; double r[NUMBER_OF_REALS + 1]; } ModelInstance;
static fmiBoolean newContinousStateSet = fmiTrue;
#define r(vr) (comp->r[vr])
'''
TEMPLATE_C = '''
static unsigned vr_states[] = STATES;
int fmu_states(unsigned *p) { memcpy(p, vr_states, sizeof(vr_states)); return sizeof(vr_states) / sizeof(unsigned); }
int fmu_sizes(int *p) { p[0] = NUMBER_OF_REALS; p[1] = NUMBER_OF_STATES; return 0; }
int fmu_start(double *rr) { ModelInstance m; for (int i = 0; i < NUMBER_OF_REALS; i++) m.r[i] = 0.0/0.0; m.time = 0; setStartValues(&m); memcpy(rr, m.r, NUMBER_OF_REALS * sizeof(double)); return 0; }
int fmu_run(double t, double *rr) { ModelInstance m; m.time = t; memcpy(m.r, rr, NUMBER_OF_REALS * sizeof(double)); newContinousStateSet = fmiTrue;
  for (int i = 0; i < NUMBER_OF_REALS; i++) rr[i] = getReal(&m, i); return 0; }
'''


class FMU:
    key = 'fmu'

    @staticmethod
    def prepare(d):
        u = d + '/utils'
        for p in ('FMI/include', 'FMI/template', 'bin'):
            os.makedirs(u + '/' + p)
        for p in ('FMI/include/fmiModelFunctions.h', 'FMI/include/fmiModelTypes.h'):
            open(u + '/' + p, 'w').close()
        open(u + '/FMI/template/fmuTemplate.h', 'w').write(TEMPLATE_H)
        open(u + '/FMI/template/fmuTemplate.c', 'w').write(TEMPLATE_C)
        open(u + '/bin/7za', 'w').write('#!/bin/sh\nexit 0\n')
        os.chmod(u + '/bin/7za', 0o755)
        if not os.environ['PATH'].startswith(d):
            os.environ['PATH'] = u + '/bin:' + os.environ['PATH']
        return {'util_folder_path': u, '7_zip_app': u + '/bin/7za'}

    def __init__(self, s, d, name):
        self.s, self.d, self.name = s, d, name
        src = '%s/%s/sources/%s.c' % (d, name, name)
        xm = read('%s/%s/modelDescription.xml' % (d, name))
        t = read(src)
        if t is None or xm is None:
            raise Bad('no file')
        so = d + '/fmu.so'
        r = subprocess.run(['gcc', '-O0', '-w', '-ftrivial-auto-var-init=pattern', '-shared', '-fPIC', src, '-o', so, '-lm'], capture_output=True, text=True)
        if r.returncode:
            raise Bad('the unit does not compile: %s' % '; '.join(x for x in r.stderr.splitlines() if 'error' in x)[:300])
        self.so = ctypes.CDLL(so)
        x = xml.dom.minidom.parseString(xm)
        self.vr, self.var = {}, {}
        for v in x.getElementsByTagName('ScalarVariable'):
            n = v.getAttribute('name')
            if n in self.vr:
                raise Bad('%s listed twice in the description' % n)
            self.vr[n] = int(v.getAttribute('valueReference'))
            real = v.getElementsByTagName('Real')[0]
            self.var[n] = (v.getAttribute('causality'), v.getAttribute('variability'), real.getAttribute('start'))
        if sorted(self.vr.values()) != list(range(len(self.vr))):
            raise Bad('value references of the description: %s' % self.vr)
        md = x.documentElement
        defs = {}
        for m in re.finditer(r'^#define (\w+)_\s+(\d+)\s*$', t, re.M):
            if m.group(1) in defs:
                raise Bad('%s defined twice' % m.group(1))
            defs[m.group(1)] = int(m.group(2))
        if defs != self.vr:
            raise Bad('value references differ: %s' % {k: (defs.get(k), self.vr.get(k)) for k in set(defs) | set(self.vr) if defs.get(k) != self.vr.get(k)})
        z = (ctypes.c_int * 2)()
        self.so.fmu_sizes(z)
        ny = sum(int(np.prod(sh)) if sh else 1 for n, sh in s.ordered)
        if list(z) != [len(self.vr), ny] or int(md.getAttribute('numberOfContinuousStates')) != ny:
            raise Bad('sizes %s, states %s, instead of %s' % (list(z), md.getAttribute('numberOfContinuousStates'), [len(self.vr), ny]))
        st = (ctypes.c_uint * ny)()
        if self.so.fmu_states(st) != ny:
            raise Bad('list of the states')
        want = [self.vr.get(x) for n, sh in s.ordered for x in self.names(n, sh)]
        if list(st) != want:
            raise Bad('states are %s instead of %s' % (list(st), want))
        for n, sh in s.ordered:
            for a in self.names(n, sh):
                if self.vr.get('der_' + a) != self.vr[a] + 1:
                    raise Bad('the derivative of %s does not follow it' % a)
        g = re.search(r'MODEL_GUID "([^"]*)"', t).group(1)
        if g != md.getAttribute('guid'):
            raise Bad('identifiers differ: %s, %s' % (g, md.getAttribute('guid')))
        rr = np.full(len(self.vr) + 1, np.nan)
        self.so.fmu_start(rr.ctypes.data_as(ctypes.POINTER(ctypes.c_double)))
        self.start = {n: rr[i] for n, i in self.vr.items()}
        try:
            vals = s.values(dict({n: v for n, sh, v in s.states}, time=0.0, **{n: v for n, sh, v in s.inputs}))
        except TBad:
            raise Skip('values at time zero')
        self.sh = dict({n: sh for n, sh, v in s.states + s.inputs}, **{n: sh for n, sh, e in s.params + s.consts})
        for n, sh in self.sh.items():
            w = np.asarray(vals[n], float).reshape(-1)
            for a, v in zip(self.names(n, sh), w):
                if a not in self.vr:
                    if any(n == i[0] for i in s.states):
                        raise Bad('state %s is not in the description' % a)
                    continue
                if not abs(self.start[a] - v) <= 1e-9 * (1 + abs(v)):
                    raise Bad('start value of %s is %s instead of %s' % (a, self.start[a], v))
                x = self.var[a][2]
                if x and not abs(float(x) - v) <= 1e-9 * (1 + abs(v)):
                    raise Bad('start value of %s in the description is %s instead of %s' % (a, x, v))
                if self.var[a][0] != ('input' if any(n == i[0] for i in s.inputs) else ''):
                    raise Bad('causality of %s: %r' % (a, self.var[a][0]))

    @staticmethod
    def names(n, sh):
        m, k = sh or (1, 1)
        return [n + ('_%d' % i if m > 1 else '') + ('_%d' % j if k > 1 else '') for i in range(m) for j in range(k)]

    def defaults(self):
        return {}

    def run(self, y, time, inputs):
        rr = np.full(len(self.vr) + 1, np.nan)
        for n, sh in self.sh.items():
            for a in self.names(n, sh):
                if a in self.vr:
                    rr[self.vr[a]] = self.start[a]
        k = 0
        for n, sh in self.s.ordered:
            for a in self.names(n, sh):
                rr[self.vr[a]] = y[k]
                k += 1
        for n, v in inputs.items():
            for a, x in zip(self.names(n, np.shape(v)), np.asarray(v, float).reshape(-1)):
                if a in self.vr:
                    rr[self.vr[a]] = x
        self.so.fmu_run(ctypes.c_double(time), rr.ctypes.data_as(ctypes.POINTER(ctypes.c_double)))
        out = {'yd': np.array([rr[self.vr['der_' + a]] for n, sh in self.s.ordered for a in self.names(n, sh)])}
        for n, k, sh, e in self.s.vars:
            if k in (files_SENSOR, files_GRAPHIC):
                miss = [a for a in self.names(n, sh) if a not in self.vr]
                if miss:
                    raise Bad('%s is not in the description' % miss)
                if any(self.var[a][0] != 'output' for a in self.names(n, sh)):
                    raise Bad('%s is no output' % n)
                v = np.array([rr[self.vr[a]] for a in self.names(n, sh)])
                out[n] = v.reshape(sh) if sh else v
        return out


from system import SENSOR as files_SENSOR, GRAPHIC as files_GRAPHIC
VARIANTS = {
    'py': [({}, files.Py)],
    'c': [({}, C), ({}, C), ({'pymbs_wrapper': True}, CWrap), ({'sfunction': True}, CAll), ({'sfunction': True, 'include_visual': False}, CAllNoVis), ({'include_visual': False}, CNoVis)],
    'f90': [({}, F90), ({'pymbs_wrapper': True}, F90Wrap)],
    'm': [({}, MSim), ({}, MSim), ({'symbolic_mode': True}, MSym)],
    'mo': [({}, MoS), ({}, MoS), ({'inputsAsInputs': False, 'package': 'Pack.Age'}, MoPartial)],
    'fmu': [(FMU.prepare, FMU)],
}
