"""Expression syntax and meaning of the target languages.

parse(lang, tokens) gives a syntax tree with that language's precedence; Meaning(lang, algebra) gives
its value.  Tokens may be opaque: the text some printer call returned.  The same parser and the same
meaning serve the deductive check (algebra = terms over the operands) and the concrete one (numbers).
"""
import re

LANGS = ['C', 'FMU', 'CSharp', 'Fortran', 'Matlab', 'MatlabSym', 'Modelica', 'Python']


class SyntaxErr(Exception):
    pass


class MeaningErr(Exception):
    pass


TOK = re.compile(r'(\d+(?:\.\d*)?(?:[eEdD][+-]?\d+)?|\.\d+(?:[eEdD][+-]?\d+)?)|([A-Za-z_$][A-Za-z0-9_$]*)|(\*\*|->|==|!=|<=|>=|&&|\|\||\(/|/\)|[-+*/^\\()\[\]{},;:?<>.=&])|(\s+)')


def lex(lang, s):
    out = []
    i = 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise SyntaxErr('character %r' % s[i])
        i = m.end()
        if m.group(1):
            out.append(('num', m.group(1)))
        elif m.group(2):
            out.append(('id', m.group(2)))
        elif m.group(3):
            t = m.group(3)
            if t in ('(/', '/)') and lang != 'Fortran':
                out += [('op', t[0]), ('op', t[1])]
            elif t == '**' and lang not in ('Fortran', 'Python'):
                out += [('op', '*'), ('op', '*')]
            else:
                out.append(('op', t))
        else:
            out.append(('ws', m.group(4)))
    return out


BIN = {
    'C': {'?': 1, '||': 2, '&&': 3, '==': 6, '!=': 6, '<': 7, '>': 7, '<=': 7, '>=': 7, '+': 9, '-': 9, '*': 10, '/': 10},
    'Python': {'if': 1, '==': 5, '<': 5, '>': 5, '+': 9, '-': 9, '*': 10, '/': 10, '**': 12},
    'Fortran': {'==': 5, '<': 5, '>': 5, '+': 9, '-': 9, '*': 10, '/': 10, '**': 12},
    'Matlab': {'==': 7, '<': 7, '>': 7, '+': 9, '-': 9, '*': 10, '/': 10, '\\': 10, '^': 12},
    'Modelica': {'==': 5, '<': 5, '>': 5, '+': 9, '-': 9, '*': 10, '/': 10, '^': 12},
}
BIN['FMU'] = BIN['CSharp'] = BIN['C']
BIN['MatlabSym'] = BIN['Matlab']
UNARY = {'C': 11, 'FMU': 11, 'CSharp': 11, 'Python': 11, 'Matlab': 11, 'MatlabSym': 11, 'Fortran': 9, 'Modelica': 9}
KEYW = {'Python': {'if', 'else'}, 'Modelica': {'if', 'then', 'else'}}


class Parser:
    def __init__(self, lang, toks):
        self.lang = lang
        self.t = [x for x in toks if x[0] != 'ws']
        if lang == 'Fortran':
            # continuation lines
            self.t = [x for x in self.t if x != ('op', '&')]
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else ('end', None)

    def isop(self, *ops):
        p = self.peek()
        return p[0] == 'op' and p[1] in ops

    def take(self):
        p = self.peek()
        self.i += 1
        return p

    def need(self, op):
        if not self.isop(op):
            raise SyntaxErr('expected %s, found %s' % (op, self.peek()[1]))
        self.i += 1

    def kw(self, w):
        return self.peek() == ('id', w)

    def binop(self):
        p = self.peek()
        tab = BIN[self.lang]
        if p[0] == 'op' and p[1] in tab:
            return p[1]
        if self.lang == 'Python' and p == ('id', 'if'):
            return 'if'
        return None

    def expr(self, lvl=0, first=True):
        L = self.lang
        if self.isop('-', '+'):
            op = self.take()[1]
            if not first and L in ('Fortran', 'Modelica'):
                raise SyntaxErr('an operator directly followed by a sign')
            x = self.expr(UNARY[L] + 1 if L in ('Fortran', 'Modelica') else UNARY[L], first=L not in ('Fortran', 'Modelica'))
            left = ('un', op, x)
        elif L == 'Modelica' and self.kw('if'):
            if lvl > 0:
                raise SyntaxErr('conditional expression without parentheses as operand')
            self.take()
            c = self.expr()
            if not self.kw('then'):
                raise SyntaxErr('then')
            self.take()
            a = self.expr()
            if not self.kw('else'):
                raise SyntaxErr('else')
            self.take()
            return ('tern', c, a, self.expr())
        else:
            left = self.postfix()
        while True:
            op = self.binop()
            if op is None:
                return left
            p = BIN[L][op]
            if p < lvl or p == 0:
                return left
            if left[0] == 'un' and p > UNARY[L] and not (L in ('Fortran', 'Modelica')):
                # the sign already took its operand at its own level
                return left
            self.i += 1
            if op == '?':
                a = self.expr(0)
                self.need(':')
                b = self.expr(1)
                left = ('tern', left, a, b)
                continue
            if op == 'if':
                c = self.expr(2)
                if not self.kw('else'):
                    raise SyntaxErr('else')
                self.i += 1
                b = self.expr(1)
                left = ('tern', c, left, b)
                continue
            if op == '**':
                right = self.expr(11 if L == 'Python' else 12, first=L == 'Python')
            elif op == '^' and L in ('Matlab', 'MatlabSym'):
                right = self.mpow()
            elif op == '^':
                right = self.postfix()
            else:
                right = self.expr(p + 1, first=False)
            left = ('bin', op, left, right)
            if op == '^' and L == 'Modelica' and self.isop('^'):
                raise SyntaxErr('a^b^c')
            if op in ('<', '>', '==') and L in ('Python', 'Fortran', 'Modelica') and self.binop() in ('<', '>', '=='):
                raise SyntaxErr('chained comparison')

    def mpow(self):
        if self.isop('-', '+'):
            op = self.take()[1]
            return ('un', op, self.mpow())
        return self.postfix()

    def args(self, close):
        out = []
        if self.isop(close):
            self.i += 1
            return out
        while True:
            if self.lang == 'Python' and self.peek()[0] == 'id' and self.i + 1 < len(self.t) and self.t[self.i + 1] == ('op', '='):
                n = self.take()[1]
                self.i += 1
                out.append(('kw', n, self.expr()))
            else:
                out.append(self.expr())
            if self.isop(','):
                self.i += 1
                continue
            self.need(close)
            return out

    def postfix(self):
        x = self.primary()
        L = self.lang
        while True:
            if self.isop('('):
                ok = x[0] in ('id', 'attr') or x[0] == 'opq' and L in ('Fortran', 'Matlab', 'MatlabSym') and issym(x[1])
                if not ok:
                    raise SyntaxErr('an argument list after an expression')
                self.i += 1
                x = ('call', x, self.args(')'))
            elif self.isop('[') and L not in ('Matlab', 'MatlabSym', 'Fortran'):
                self.i += 1
                x = ('index', x, self.args(']'))
            elif self.isop('.') and L in ('Python', 'CSharp', 'Modelica'):
                self.i += 1
                n = self.take()
                if n[0] != 'id':
                    raise SyntaxErr('attribute')
                x = ('attr', x, n[1])
            elif self.isop('->') and L in ('C', 'FMU'):
                self.i += 1
                n = self.take()
                x = ('arrow', x, n[1])
            else:
                return x

    def primary(self):
        p = self.take()
        L = self.lang
        if p[0] in ('num', 'opq', 'nv'):
            return p
        if p[0] == 'id':
            if p[1] in KEYW.get(L, ()):
                raise SyntaxErr('keyword ' + p[1])
            return p
        if p == ('op', '('):
            x = self.expr()
            if L == 'Python' and self.isop(','):
                self.i += 1
                return ('list', [x] + self.args(')'))
            self.need(')')
            return ('par', x)
        if p == ('op', '(/') and L == 'Fortran':
            out = []
            while True:
                out.append(self.expr())
                if self.isop(','):
                    self.i += 1
                    continue
                self.need('/)')
                return ('list', out)
        if p == ('op', '{') and L in ('C', 'FMU', 'CSharp', 'Modelica'):
            return ('list', self.args('}'))
        if p == ('op', '[') and L == 'Python':
            return ('list', self.args(']'))
        if p == ('op', '[') and L in ('Matlab', 'MatlabSym'):
            rows = [[]]
            while True:
                rows[-1].append(self.expr())
                if self.isop(','):
                    self.i += 1
                elif self.isop(';'):
                    self.i += 1
                    rows.append([])
                else:
                    self.need(']')
                    return ('mrows', rows)
        raise SyntaxErr('unexpected %s' % (p[1],))


def issym(o):
    return getattr(o, 'types', None) is not None and o.types <= {'Symbol'}


def parse(lang, toks):
    """(tree, closed): closed = the text may stand anywhere an operand may"""
    p = Parser(lang, toks)
    t = p.expr()
    if p.peek()[0] != 'end':
        raise SyntaxErr('text after the expression: %s' % (p.peek()[1],))
    q = Parser(lang, toks)
    try:
        q.postfix()
        closed = q.peek()[0] == 'end'
    except SyntaxErr:
        closed = False
    return t, closed


FN = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'asin': 'asin', 'acos': 'acos', 'atan': 'atan', 'abs': 'abs', 'sign': 'sign'}


def functions(lang):
    if lang in ('C', 'FMU'):
        d = {k: v for k, v in FN.items() if k not in ('abs', 'sign')}
        d['fabs'] = 'abs'
        return d
    if lang == 'CSharp':
        return {'Math.' + k.capitalize(): v for k, v in FN.items()}
    return dict(FN)


class V:
    """kind: s number, b truth value, a array (two-dimensional), l bracketed list"""

    def __init__(self, kind, x):
        self.kind, self.x = kind, x


class Meaning:
    def __init__(self, lang, alg):
        self.L, self.A = lang, alg
        self.fn = functions(lang)

    def name(self, t):
        if t[0] == 'id':
            return t[1]
        if t[0] == 'attr':
            b = self.name(t[1])
            return None if b is None else b + '.' + t[2]
        return None

    def fail(self, s):
        raise MeaningErr(s)

    def scalar(self, v):
        if v.kind == 'b' and self.L in ('C', 'FMU', 'Matlab', 'MatlabSym', 'Python'):
            return v.x
        if v.kind != 's':
            self.fail('a number is required')
        return v.x

    def val(self, t):
        v = self.go(t)
        if v.kind == 'b' and self.L in ('C', 'FMU', 'Matlab', 'MatlabSym', 'Python'):
            return V('s', A.pick(v.x))
        return v

    def arr(self, v):
        if v.kind == 'l':
            return V('a', self.matrix(v.x))
        if v.kind != 'a':
            self.fail('an array is required')
        return v

    def matrix(self, rows):
        """nested lists of numbers"""
        if all(isinstance(r, V) and r.kind == 'l' for r in rows):
            return self.A.mat([[self.scalar(x) for x in r.x] for r in rows])
        self.fail('nested lists required')

    def norm(self, v):
        """Matlab makes no difference between a number and a 1x1 array"""
        if self.L in ('Matlab', 'MatlabSym') and v.kind == 'a' and self.A.one(v.x):
            return V('s', self.A.pick(v.x))
        return v

    def go(self, t):
        A, L, k = self.A, self.L, t[0]
        if k == 'par':
            return self.go(t[1])
        if k == 'num':
            s = t[1]
            if L == 'Fortran':
                if 'd' not in s.lower():
                    if not re.fullmatch(r'\d+', s):
                        self.fail('single precision literal ' + s)
                return V('s', A.num(s.lower().replace('d', 'e')))
            if 'd' in s.lower():
                self.fail('literal ' + s)
            return V('s', A.num(s))
        if k == 'nv':
            return V('s', A.numval(t[1]))
        if k == 'opq':
            return self.norm(A.operand(t[1]))
        if k == 'id':
            if t[1] in ('true', 'false', 'True', 'False', 'fmiTrue', 'fmiFalse'):
                return V('b' if L not in ('FMU',) else 's', A.num('1' if t[1].lower().endswith('true') else '0'))
            return self.norm(A.symbol(t[1]))
        if k == 'arrow':
            if t[1] == ('id', 'comp') and t[2] == 'time':
                return A.symbol('time')
            self.fail('->')
        if k == 'un':
            v = self.val(t[2])
            if v.kind == 'l':
                self.fail('sign before a list')
            return v if t[1] == '+' else V(v.kind, A.neg(v.x))
        if k == 'tern':
            c = self.go(t[1])
            if c.kind not in ('s', 'b') or c.kind == 's' and L == 'CSharp' and not self.anycond(t[1]):
                self.fail('condition is not a truth value')
            a, b = self.val(t[2]), self.val(t[3])
            if a.kind != b.kind:
                self.fail('branches of different kinds')
            return V(a.kind, A.ifc(c.x, a.x, b.x))
        if k == 'list':
            v = V('l', [self.val(x) for x in t[1]])
            if L == 'Modelica' and v.x and all(r.kind == 'l' for r in v.x):
                return V('a', self.matrix(v.x))
            return v
        if k == 'mrows':
            rows = []
            for r in t[1]:
                vs = [self.val(x) for x in r]
                if len(vs) == 1 and getattr(vs[0], 'rows', None) and len(vs[0].rows) == 1:
                    rows.append(vs[0].rows[0])
                else:
                    rows.append([self.scalar(x) for x in vs])
            v = self.norm(V('a', A.mat(rows)))
            v.rows = rows
            return v
        if k == 'bin':
            return self.binary(t)
        if k == 'index':
            return self.index(self.go(t[1]), [self.intval(x) for x in t[2]], 0 if L != 'Modelica' else 1)
        if k == 'attr':
            n = self.name(t)
            if L == 'Python':
                v = self.go(t[1])
                if v.kind == 'l':
                    self.fail('attribute of a list')
                if t[2] == 'T':
                    if v.kind != 'a':
                        self.fail('.T of a number')
                    return V('a', A.T(v.x))
                if t[2] == 'I':
                    if v.kind != 'a':
                        self.fail('.I of a number')
                    return V('a', A.inv(v.x))
            self.fail('name %s' % n)
        if k == 'call':
            return self.call(t)
        self.fail(k)

    def intval(self, t):
        v = self.go(t)
        if v.kind != 's':
            self.fail('index')
        return self.A.integer(v.x)

    def index(self, v, ix, base):
        A, L = self.A, self.L
        ix = [A.sub(i, base) for i in ix]
        if L in ('C', 'FMU', 'CSharp') and len(ix) == 1:
            if v.kind == 'row':
                return V('s', A.elem(v.x[0], v.x[1], ix[0]))
            if v.kind != 'a':
                self.fail('index of a number')
            if A.vec(v.x):
                return V('s', A.velem(v.x, ix[0]))
            if L == 'CSharp':
                self.fail('one index of a matrix')
            return V('row', (v.x, ix[0]))
        if v.kind != 'a':
            self.fail('index of a number')
        if len(ix) != 2:
            self.fail('two indices are required')
        if L in ('C', 'FMU'):
            self.fail('comma in an index')
        return V('s', A.elem(v.x, ix[0], ix[1]))

    def binary(self, t):
        A, L, op = self.A, self.L, t[1]
        a, b = self.val(t[2]), self.val(t[3])
        if a.kind == 'l' or b.kind == 'l':
            self.fail('operation on a list')
        if 'row' in (a.kind, b.kind):
            self.fail('operation on a row')
        ks = a.kind + b.kind
        if op in ('==', '<', '>'):
            return V('b', A.cmp(op, self.scalar(a), self.scalar(b)))
        if op in '+-':
            if op == '-':
                b = V(b.kind, A.neg(b.x))
            if ks == 'ss':
                return V('s', A.add(a.x, b.x))
            if L in ('C', 'FMU', 'CSharp'):
                self.fail('arrays in a sum')
            if ks == 'aa':
                if not A.sameshape(a.x, b.x):
                    self.fail('sum of arrays of different sizes')
            elif L == 'Modelica':
                self.fail('number plus array')
            return V('a', A.add(a.x, b.x))
        if op == '*':
            if ks == 'ss':
                return V('s', A.mul(a.x, b.x))
            if L in ('C', 'FMU'):
                self.fail('arrays in a product')
            if ks in ('as', 'sa'):
                return V('a', A.mul(a.x, b.x))
            if L == 'Fortran':
                self.fail('element-wise product of arrays')
            return self.mm(a, b)
        if op == '/':
            if ks == 'ss':
                return V('s', A.mul(a.x, A.powi(b.x, -1)))
            self.fail('quotient of arrays')
        if op == '\\':
            if a.kind == 'a':
                return self.norm(V(b.kind, A.solve(a.x, b.x)))
            return V(b.kind, A.mul(A.powi(a.x, -1), b.x))
        if op in ('^', '**'):
            if b.kind != 's':
                self.fail('exponent')
            if a.kind == 'a':
                if L == 'Fortran':
                    self.fail('element-wise power of an array')
                return V('a', A.mpow(a.x, b.x))
            return V('s', A.pow(a.x, b.x))
        self.fail('operator ' + op)

    def anycond(self, t):
        """an opaque operand may be of the required type"""
        while t[0] == 'par':
            t = t[1]
        return t[0] == 'opq'

    def mm(self, a, b):
        if not self.A.conform(a.x, b.x):
            self.fail('product of arrays that do not conform')
        return self.norm(V('a', self.A.mul(a.x, b.x)))

    def call(self, t):
        A, L = self.A, self.L
        f = self.name(t[1])
        if t[1][0] == 'opq':
            v = self.go(t[1])
            return self.paren(v, t[2])
        if f is None and t[1][0] == 'attr' and L == 'CSharp' or (f or '').endswith(('.Transpose', '.Inverse')) and L == 'CSharp':
            v = self.go(t[1][1])
            if v.kind != 'a' or t[2]:
                self.fail('method of a number')
            if t[1][2] == 'Transpose':
                return V('a', A.T(v.x))
            if t[1][2] == 'Inverse':
                return V('a', A.inv(v.x))
        args = t[2]
        n = len(args)
        if f in self.fn and n == 1:
            v = self.val(args[0])
            if v.kind != 's':
                if L in ('Modelica', 'Python', 'Matlab', 'MatlabSym', 'Fortran') and v.kind == 'a':
                    return V('a', A.fn(self.fn[f], v.x))
                self.fail('function of an array')
            return V('s', A.fn(self.fn[f], v.x))
        at2 = 'Math.Atan2' if L == 'CSharp' else 'atan2'
        if f == at2 and n == 2 and L != 'MatlabSym':
            return V('s', A.atan2(self.scalar(self.val(args[0])), self.scalar(self.val(args[1]))))
        if f == {'C': 'pow', 'FMU': 'pow', 'CSharp': 'Math.Pow'}.get(L) and n == 2:
            return V('s', A.pow(self.scalar(self.val(args[0])), self.scalar(self.val(args[1]))))
        if f == 'r' and L == 'FMU' and n == 1:
            nm = self.name(args[0]) or ''
            if not nm.endswith('_'):
                self.fail('value reference ' + nm)
            return A.symbol(nm[:-1])
        if L == 'Python':
            if f == 'matrix':
                if n == 2 and args[1][0] == 'kw':
                    if args[1] != ('kw', 'dtype', ('id', 'float')):
                        self.fail('dtype')
                    n = 1
                if n != 1:
                    self.fail('matrix')
                v = self.go(args[0])
                if v.kind == 'l':
                    return self.arr(v)
                return self.arr(v)
            if f == 'zeros' and n == 1 and args[0][0] == 'list' and len(args[0][1]) == 2:
                return V('a', A.zeros(*[self.intval(x) for x in args[0][1]]))
            if f == 'linalg.solve' and n == 2:
                return V('a', A.solve(self.arr(self.val(args[0])).x, self.arr(self.val(args[1])).x))
        if L in ('Modelica', 'Matlab', 'MatlabSym', 'Fortran') and f == 'transpose' and n == 1:
            v = self.val(args[0])
            if v.kind == 's' and L in ('Matlab', 'MatlabSym'):
                return v
            return V('a', A.T(self.arr(v).x))
        if f == 'zeros' and n == 2 and L in ('Modelica', 'Matlab', 'MatlabSym'):
            return self.norm(V('a', A.zeros(self.intval(args[0]), self.intval(args[1]))))
        if L in ('Matlab', 'MatlabSym'):
            if f == 'inv' and n == 1:
                v = self.val(args[0])
                return V('a', A.inv(v.x)) if v.kind == 'a' else V('s', A.powi(v.x, -1))
            if f == 'jacobian' and n == 2:
                return A.jac(self.val(args[0]), self.val(args[1]))
        if L == 'Modelica':
            if f == 'scalar' and n == 1:
                v = self.arr(self.val(args[0]))
                if not A.one(v.x):
                    self.fail('scalar() of an array with several elements')
                return V('s', A.pick(v.x))
            if f == 'skew' and n == 1 and args[0][0] == 'call' and args[0][1] == ('id', 'vector'):
                return V('a', A.skew(self.arr(self.val(args[0][2][0])).x))
            if f == 'Modelica.Math.Matrices.inv' and n == 1:
                return V('a', A.inv(self.arr(self.val(args[0])).x))
            if f == 'Modelica.Math.Matrices.solve2' and n == 2:
                return V('a', A.solve(self.arr(self.val(args[0])).x, self.arr(self.val(args[1])).x))
            if f == 'der' and n == 1:
                v = self.val(args[0])
                return V(v.kind, A.der(v.x))
        if L == 'Fortran':
            if f == 'sign' and n == 2:
                a, b = self.scalar(self.val(args[0])), self.scalar(self.val(args[1]))
                return V('s', A.fsign(a, b))
            if f == 'merge' and n == 3:
                return V('s', A.ifc(self.go(args[2]).x, self.scalar(self.val(args[0])), self.scalar(self.val(args[1]))))
            if f == 'matmul' and n == 2:
                a, b = self.arr(self.val(args[0])), self.arr(self.val(args[1]))
                return self.mm(a, b)
            if f == 'scalar' and n == 1:
                v = self.arr(self.val(args[0]))
                if not A.one(v.x):
                    self.fail('scalar() of an array with several elements')
                return V('s', A.pick(v.x))
            if f == 'skew' and n == 1:
                return V('a', A.skew(self.arr(self.val(args[0])).x))
            if f == 'MIGS' and n == 1:
                return V('a', A.inv(self.arr(self.val(args[0])).x))
            if f == 'LEGS' and n == 2:
                return V('a', A.solve(self.arr(self.val(args[0])).x, self.arr(self.val(args[1])).x))
            if f == 'matpow' and n == 2:
                return V('a', A.mpow(self.arr(self.val(args[0])).x, self.scalar(self.val(args[1]))))
            if f == 'reshape' and n == 2:
                a, s = args
                if a[0] != 'list' or s[0] != 'list' or len(s[1]) != 2:
                    self.fail('reshape')
                r, c = [A.conc(self.intval(x)) for x in s[1]]
                el = [self.scalar(self.val(x)) for x in a[1]]
                if len(el) != r * c:
                    self.fail('reshape of %d elements to %dx%d' % (len(el), r, c))
                return V('a', A.mat([[el[j * r + i] for j in range(c)] for i in range(r)]))
        if t[1][0] == 'id' and L in ('Fortran', 'Matlab', 'MatlabSym') and A.known(f):
            return self.paren(A.symbol(f), args)
        self.fail('function %s with %d arguments' % (f, n))

    def paren(self, v, args):
        ix = [self.A.sub(self.intval(x), 1) for x in args]
        if v.kind != 'a':
            if self.L in ('Matlab', 'MatlabSym') and v.kind == 's':
                return v
            self.fail('index of a number')
        if len(ix) == 1 and self.L in ('Matlab', 'MatlabSym'):
            return V('s', self.A.velem(v.x, ix[0]))
        if len(ix) != 2:
            self.fail('two indices are required')
        return V('s', self.A.elem(v.x, ix[0], ix[1]))
