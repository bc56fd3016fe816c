#!/opt/veriftools/pyvenv/bin/python
"""Interpreter for the part of the Octave language a filter design script needs.

GNU Octave is not installed here, so this stands in for the 'octave' command when the C26 check runs
filter-design/mkfir.sh.  Supported: scripts and function files, matrices and ranges, element-wise and matrix
arithmetic, if/for/while, multiple assignment, command syntax (pkg, save, ...), and the functions in FUNCS below;
ultrwin() and freqz() are written from their mathematical definitions.  Anything else is an error (exit code 3).
"""
import sys, os, re, math
import numpy as np

class Unsupported(Exception):
    pass

# ------------------------------------------------------------------ lexer

TOK = re.compile(r'''
  (?P<num>(?:\d+\.?\d*(?![*/^'])|\.\d+|\d+)(?:[eEdD][+-]?\d+)?[ij]?(?!\w))
 |(?P<id>[A-Za-z_]\w*)
 |(?P<op>\.\*=|\./=|\.\^=|\^=|\.\^'|\.'|\.\*|\./|\.\^|==|~=|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|\+\+|--|[-+*/^<>=&|!~()\[\]{},;:@.'"])
''', re.X)
KEYWORDS = {'if', 'elseif', 'else', 'end', 'endif', 'for', 'endfor', 'while', 'endwhile', 'function', 'endfunction', 'return', 'break', 'continue', 'end_try_catch', 'do', 'until', 'switch', 'case', 'otherwise', 'endswitch', 'unwind_protect', 'unwind_protect_cleanup', 'end_unwind_protect'}
COMMANDS = {'pkg', 'save', 'format', 'close', 'clear', 'more', 'warning', 'clc', 'hold'}

def lex(text):
    """-> list of (kind, value, space before); newlines become ('nl', ...) tokens."""
    text = text.replace('\r\n', '\n').replace('\r', '\n')
    text = re.sub(r'(?ms)^[ \t]*[%#]\{[ \t]*$.*?^[ \t]*[%#]\}[ \t]*$', '', text)
    toks, i, n, nest, start = [], 0, len(text), [], True
    while i < n:
        ch = text[i]
        if ch in ' \t':
            i += 1
            continue
        space = i > 0 and text[i - 1] in ' \t'
        if ch in '%#':
            while i < n and text[i] != '\n':
                i += 1
            continue
        m = re.compile(r'(\.\.\.|\\)[^\n]*\n').match(text, i)
        if text.startswith('...', i) and m:
            i = m.end()
            continue
        if ch == '\n':
            if nest and nest[-1] in '[{':
                toks.append(('op', ';', False))
            elif not nest:
                toks.append(('nl', '\n', False))
                start = True
            i += 1
            continue
        # command syntax: word at the start of a statement followed by a space and another word
        if start:
            m = re.compile(r'([A-Za-z_]\w*)[ \t]+([^\n;,]*)').match(text, i)
            if m and m.group(1) in COMMANDS and not re.match(r'=[^=]|\(', m.group(2)):
                words = [w.strip('"\'') for w in m.group(2).split('%')[0].split('#')[0].split()]
                toks.append(('cmd', [m.group(1)] + words, False))
                i = m.end()
                start = False
                continue
        prev = toks[-1] if toks else ('nl', '', False)
        value_before = prev[0] in ('num', 'str') or (prev[0] == 'id' and prev[1] not in KEYWORDS) or (prev[0] == 'op' and prev[1] in (')', ']', '}', "'", ".'"))
        if ch == '"' or (ch == "'" and (not value_before or (space and nest and nest[-1] in '[{'))):
            j, s = i + 1, ''
            while True:
                if j >= n or text[j] == '\n':
                    raise Unsupported('unterminated string')
                if text[j] == ch:
                    if j + 1 < n and text[j + 1] == ch:
                        s += ch
                        j += 2
                        continue
                    break
                if ch == '"' and text[j] == '\\' and j + 1 < n:
                    s += {'n': '\n', 't': '\t', '\\': '\\', '"': '"', "'": "'", 'r': '\r', 'a': '\a', '0': '\0'}.get(text[j + 1], '\\' + text[j + 1])
                    j += 2
                    continue
                s += text[j]
                j += 1
            toks.append(('str', s, space))
            i = j + 1
            start = False
            continue
        m = TOK.match(text, i)
        if not m:
            raise Unsupported('character %r' % ch)
        kind = m.lastgroup
        v = m.group()
        if kind == 'op':
            if v in '([{':
                nest.append(v)
            elif v in ')]}' and nest:
                nest.pop()
        toks.append((kind, v, space))
        start = not nest and kind == 'op' and v in ';,'
        if kind == 'id' and v in ('else', 'do', 'end', 'endif', 'endfor', 'endwhile', 'endfunction'):
            start = True
        i = m.end()
    toks.append(('nl', '\n', False))
    toks.append(('eof', None, False))
    return toks

# ------------------------------------------------------------------ parser (to nested tuples)

class Parser:
    def __init__(self, text):
        self.t = lex(text)
        self.i = 0
        self.mat = []       # inside of [] (True) or () (False)
        self.functions = {}

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def op(self, *vs):
        t = self.peek()
        return t[0] == 'op' and t[1] in vs

    def kw(self, *vs):
        t = self.peek()
        return t[0] == 'id' and t[1] in vs

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def expect(self, v):
        t = self.next()
        if t[1] != v:
            raise Unsupported('%r instead of %r' % (t[1], v))

    def skip(self):
        while self.peek()[0] == 'nl' or self.op(';', ','):
            self.i += 1

    def program(self):
        body = self.block(())
        if self.peek()[0] != 'eof':
            raise Unsupported('unexpected %r' % (self.peek()[1],))
        return body

    def block(self, ends):
        out = []
        while True:
            self.skip()
            t = self.peek()
            if t[0] == 'eof' or (t[0] == 'id' and t[1] in ends):
                return out
            s = self.statement()
            if s:
                out.append(s)

    def statement(self):
        t = self.peek()
        if t[0] == 'cmd':
            self.next()
            return ('cmd', t[1])
        if t[0] == 'id' and t[1] in KEYWORDS:
            k = self.next()[1]
            if k == 'function':
                return self.function()
            if k == 'if':
                arms, other = [], []
                c = self.expr()
                arms.append((c, self.block(('elseif', 'else', 'end', 'endif'))))
                while True:
                    e = self.next()[1]
                    if e == 'elseif':
                        c = self.expr()
                        arms.append((c, self.block(('elseif', 'else', 'end', 'endif'))))
                    elif e == 'else':
                        other = self.block(('end', 'endif'))
                    elif e in ('end', 'endif'):
                        return ('if', arms, other)
                    else:
                        raise Unsupported('if without end')
            if k == 'for':
                par = self.op('(')
                if par:
                    self.next()
                    self.mat.append(False)
                name = self.next()[1]
                self.expect('=')
                e = self.expr()
                if par:
                    self.mat.pop()
                    self.expect(')')
                b = self.block(('end', 'endfor'))
                self.next()
                return ('for', name, e, b)
            if k == 'while':
                c = self.expr()
                b = self.block(('end', 'endwhile'))
                self.next()
                return ('while', c, b)
            if k in ('return', 'break', 'continue'):
                return (k,)
            if k == 'do':
                b = self.block(('until',))
                self.next()
                return ('until', self.expr(), b)
            if k == 'switch':
                v = self.expr()
                self.skip()
                arms, other = [], []
                while self.kw('case', 'otherwise'):
                    if self.next()[1] == 'case':
                        c = self.expr()
                        arms.append((c, self.block(('case', 'otherwise', 'end', 'endswitch'))))
                    else:
                        other = self.block(('end', 'endswitch'))
                self.next()
                return ('switch', v, arms, other)
            if k == 'unwind_protect':
                b = self.block(('unwind_protect_cleanup',))
                self.next()
                c = self.block(('end_unwind_protect', 'end'))
                self.next()
                return ('if', [(('num', 1.0), b + c)], [])
            raise Unsupported('keyword ' + k)
        # multiple assignment?
        if self.op('['):
            save = self.i
            try:
                self.next()
                names = []
                while not self.op(']'):
                    if self.op(','):
                        self.next()
                        continue
                    t = self.next()
                    if t[0] == 'op' and t[1] in '~!':
                        names.append(None)
                    elif t[0] == 'id':
                        names.append(t[1])
                    else:
                        raise Unsupported('')
                self.next()
                if self.op('='):
                    self.next()
                    e = self.expr()
                    return ('massign', names, e, self.silent())
            except Unsupported:
                pass
            self.i = save
        if self.op('++', '--') and self.peek(1)[0] == 'id':
            o = self.next()[1][0]
            name = self.next()[1]
            return ('massign', [name], ('bin', o, ('name', name), ('num', 1.0)), self.silent())
        e = self.expr()
        if self.op('=') and e[0] in ('name', 'index'):
            self.next()
            v = self.expr()
            if e[0] == 'name':
                return ('massign', [e[1]], v, self.silent())
            if e[1][0] != 'name':
                raise Unsupported('assignment')
            return ('iassign', e[1][1], e[2], v, self.silent())
        if self.op('+=', '-=', '*=', '/=', '.*=', './=') and e[0] == 'index' and e[1][0] == 'name':
            o = self.next()[1][:-1]
            return ('iassign', e[1][1], e[2], ('bin', o, e, self.expr()), self.silent())
        if self.op('+=', '-=', '*=', '/=', '^=', '.*=', './=', '.^=') and e[0] == 'name':
            o = self.next()[1][:-1]
            return ('massign', [e[1]], ('bin', o, e, self.expr()), self.silent())
        if self.op('++', '--') and e[0] == 'name':
            o = self.next()[1][0]
            return ('massign', [e[1]], ('bin', o, e, ('num', 1.0)), self.silent())
        return ('expr', e, self.silent())

    def silent(self):
        t = self.peek()
        if t[0] in ('nl', 'eof') or self.op(',') or (t[0] == 'id' and t[1] in KEYWORDS):
            return False
        if self.op(';'):
            return True
        raise Unsupported('unexpected %r' % (t[1],))

    def function(self):
        outs = []
        if self.op('['):
            self.next()
            while not self.op(']'):
                t = self.next()
                if t[0] == 'id':
                    outs.append(t[1])
            self.next()
            self.expect('=')
            name = self.next()[1]
        else:
            name = self.next()[1]
            if self.op('='):
                self.next()
                outs, name = [name], self.next()[1]
        args = []
        if self.op('('):
            self.next()
            while not self.op(')'):
                t = self.next()
                if t[0] == 'id':
                    args.append((t[1], None))
                    if self.op('='):
                        self.next()
                        self.mat.append(False)
                        args[-1] = (t[1], self.expr())
                        self.mat.pop()
                elif t[1] != ',':
                    raise Unsupported('arguments')
            self.next()
        body = self.block(('end', 'endfunction', 'function'))
        if self.kw('end', 'endfunction'):
            self.next()
        self.functions[name] = (outs, args, body)
        return None

    LEVELS = [('||',), ('&&',), ('|',), ('&',), ('<', '<=', '==', '!=', '~=', '>', '>=')]

    def expr(self, lv=0):
        if lv == len(self.LEVELS):
            return self.range()
        l = self.expr(lv + 1)
        while self.op(*self.LEVELS[lv]) and not self.splits():
            o = self.next()[1]
            l = ('bin', {'~=': '!='}.get(o, o), l, self.expr(lv + 1))
        return l

    def splits(self):
        """In a matrix, 'a -b' are two elements, 'a - b' is one."""
        t, n = self.peek(), self.peek(1)
        return bool(self.mat and self.mat[-1] and t[2] and not n[2] and t[1] in ('+', '-', '!', '~', "'"))

    def range(self):
        l = self.add()
        if self.op(':') and not (self.peek(1)[0] == 'op' and self.peek(1)[1] in (')', ',')):
            self.next()
            m = self.add()
            if self.op(':'):
                self.next()
                return ('range', l, m, self.add())
            return ('range', l, ('num', 1.0), m)
        return l

    def add(self):
        l = self.mul()
        while self.op('+', '-') and not self.splits():
            o = self.next()[1]
            l = ('bin', o, l, self.mul())
        return l

    def mul(self):
        l = self.unary()
        while self.op('*', '/', '.*', './'):
            o = self.next()[1]
            l = ('bin', o, l, self.unary())
        return l

    def unary(self):
        if self.op('-', '+', '!', '~'):
            o = self.next()[1]
            return ('un', {'~': '!'}.get(o, o), self.unary())
        return self.power()

    def power(self):
        l = self.postfix()
        while self.op('^', '.^'):
            o = self.next()[1]
            sgn = []
            while self.op('-', '+'):
                sgn.append(self.next()[1])
            r = self.postfix()
            for s in sgn:
                r = ('un', s, r)
            l = ('bin', o, l, r)
        return l

    def postfix(self):
        e = self.primary()
        while True:
            t = self.peek()
            if t[0] == 'op' and t[1] == '(' and e[0] in ('name', 'index', 'matrix', 'paren') and not (self.mat and self.mat[-1] and t[2]):
                self.next()
                self.mat.append(False)
                args = []
                while not self.op(')'):
                    if self.op(':') and self.peek(1)[1] in (',', ')'):
                        self.next()
                        args.append(('colon',))
                    else:
                        args.append(self.expr())
                    if self.op(','):
                        self.next()
                    elif not self.op(')'):
                        raise Unsupported('arguments')
                self.next()
                self.mat.pop()
                e = ('index', e, args)
            elif t[0] == 'op' and t[1] in ("'", ".'") and not (self.mat and self.mat[-1] and t[2]):
                e = ('tr', e, self.next()[1] == ".'")
            else:
                return e

    def primary(self):
        t = self.next()
        if t[0] == 'num':
            v = t[1].replace('d', 'e').replace('D', 'e')
            return ('num', complex(0, float(v[:-1])) if v[-1] in 'ij' else float(v))
        if t[0] == 'str':
            return ('str', t[1])
        if t[0] == 'id':
            if t[1] in KEYWORDS and t[1] != 'end':
                raise Unsupported('keyword ' + t[1])
            return ('name', t[1])
        if t[1] == '(':
            self.mat.append(False)
            e = self.expr()
            self.mat.pop()
            self.expect(')')
            return ('paren', e)
        if t[1] == '[':
            self.mat.append(True)
            rows, row = [], []
            while not self.op(']'):
                if self.op(';'):
                    self.next()
                    if row:
                        rows.append(row)
                    row = []
                elif self.op(','):
                    self.next()
                elif self.peek()[0] == 'eof':
                    raise Unsupported('matrix without end')
                else:
                    row.append(self.expr())
            self.next()
            if row:
                rows.append(row)
            self.mat.pop()
            return ('matrix', rows)
        if t[1] == '@':
            if self.op('('):
                self.next()
                args = []
                while not self.op(')'):
                    a = self.next()
                    if a[0] == 'id':
                        args.append(a[1])
                self.next()
                return ('lambda', args, self.expr())
            return ('handle', self.next()[1])
        raise Unsupported('unexpected %r' % (t[1],))

# ------------------------------------------------------------------ values and built-in functions

def M(v):
    """every number is a two-dimensional array"""
    a = np.asarray(v)
    if a.ndim == 0:
        a = a.reshape(1, 1)
    elif a.ndim == 1:
        a = a.reshape(1, -1)
    return a

def num(v):
    if isinstance(v, str):
        return np.array([[float(ord(c)) for c in v]])
    if not isinstance(v, np.ndarray):
        raise Unsupported('not a number: %r' % (v,))
    return v.astype(float) if v.dtype == bool else v

def scalar(v):
    v = num(v)
    if v.size != 1:
        raise Unsupported('scalar expected')
    return v.flat[0]

def integer(v):
    f = scalar(v)
    if f != int(f):
        raise Unsupported('integer expected')
    return int(f)

def gegenbauer(n, mu, x):
    a, b = np.ones_like(x), 2 * mu * x
    if n == 0:
        return a
    for k in range(2, n + 1):
        a, b = b, (2 * x * (k + mu - 1) * b - (k + 2 * mu - 2) * a) / k
    return b

def ultrwin(m, mu, par, kind='beta'):
    """Ultraspherical window of m points (column): C_{m-1}^mu (x cos (pi k / m)) as spectrum, middle 1."""
    m, mu, par = integer(m), float(scalar(mu)), float(scalar(par))
    if m < 1 or mu <= -0.5:
        raise Unsupported('ultrwin arguments')
    if m == 1:
        return M(1.0)
    n = m - 1
    if mu == 0:
        raise Unsupported('ultrwin: mu = 0')
    kind = kind.lower()
    if kind.startswith('b'):
        x = par
    else:
        # par is the attenuation (dB) of a side lobe: the one next to the main lobe ("att") or the last one ("latt");
        # side lobes are at the zeros of the derivative, the last one at the smallest positive zero
        zeros = []
        g = lambda v: float(gegenbauer(n - 1, mu + 1, np.float64(v)))
        grid = np.cos(np.linspace(math.pi / 2 - 1e-3 / n, 0, 40 * n))
        val = gegenbauer(n - 1, mu + 1, grid)
        ch = np.nonzero(val[:-1] * val[1:] < 0)[0]
        if len(ch) == 0:
            raise Unsupported('ultrwin: too few points')
        k = ch[0] if kind.startswith('l') else ch[-1] if kind.startswith('a') else None
        if k is None:
            raise Unsupported('ultrwin: parameter type')
        ref = abs(float(gegenbauer(n, mu, np.float64(bisect(g, grid[k], grid[k + 1])))))
        r = 10 ** (par / 20)
        hi = 2.0
        while float(gegenbauer(n, mu, np.float64(hi))) / ref < r:
            hi *= 2
        x = bisect(lambda v: float(gegenbauer(n, mu, np.float64(v))) / ref - r, 1.0, hi)
    if n % 2:
        raise Unsupported('ultrwin: even number of points')
    W = gegenbauer(n, mu, x * np.cos(np.pi * np.arange(m) / m))
    pos = np.arange(m) - n // 2
    w = (W[None, :] * np.cos(2 * np.pi * np.outer(pos, np.arange(m)) / m)).sum(axis=1)
    return (w / w[n // 2]).reshape(-1, 1)

def bisect(f, lo, hi):
    s = f(lo) < 0
    for _ in range(100):
        mid = (lo + hi) / 2
        if (f(mid) < 0) == s: lo = mid
        else: hi = mid
    return (lo + hi) / 2

def freqz(b, a, n=None, fs=None):
    b, a = num(b).ravel(), num(a).ravel()
    n = 512 if n is None else integer(n)
    w = np.pi * np.arange(n) / n
    z = np.exp(-1j * w)
    h = np.polyval(b[::-1], z) / np.polyval(a[::-1], z)
    if fs is not None:
        w = w / np.pi * float(scalar(fs)) / 2
    return h.reshape(-1, 1), w.reshape(-1, 1)

def reduce_(f):
    def g(v, dim=None):
        v = num(v)
        if dim is None:
            ax = 1 if v.shape[0] == 1 else 0
        else:
            ax = integer(dim) - 1
        return M(f(v, axis=ax, keepdims=True))
    return g

def minmax(f, two):
    def g(v, w=None):
        if w is not None:
            return M(two(num(v), num(w)))
        return reduce_(f)(v)
    return g

def dims(args):
    a = [int(x) for x in num(args[0]).ravel()] if len(args) == 1 else [integer(x) for x in args]
    return (a[0], a[0]) if len(a) == 1 else tuple(a) if a else (1, 1)

def size(v, d=None):
    sh = num(v).shape
    return M(np.array(sh, float)) if d is None else M(float(sh[integer(d) - 1]))

def fmt_c(args):
    """printf with its template recycled"""
    f = args[0]
    flat = []
    for a in args[1:]:
        if isinstance(a, str):
            flat.append(a)
        else:
            flat.extend(num(a).T.ravel().tolist())
    specs = re.findall(r'%(?:%|[-+ 0#]*[\d.]*[a-zA-Z])', f)
    need = len([x for x in specs if x != '%%'])
    out, pos = '', 0
    while True:
        def sub(m):
            nonlocal pos
            if m.group() == '%%':
                return '%'
            if pos >= len(flat):
                return ''
            v = flat[pos]
            pos += 1
            t = m.group()
            if t[-1] in 'di' and not isinstance(v, str):
                if v != int(v):
                    t = t[:-1] + 'f'
                else:
                    v = int(v)
            return t % v
        out += re.sub(r'%(?:%|[-+ 0#]*[\d.]*[a-zA-Z])', sub, f)
        if pos >= len(flat) or not need:
            return re.sub(r'\\n', '\n', out)

def elementwise(f):
    return lambda v: M(f(num(v)))

with np.errstate(all='ignore'):
    pass
FUNCS = {
    'sinc': elementwise(np.sinc), 'abs': elementwise(np.abs), 'sin': elementwise(np.sin), 'cos': elementwise(np.cos), 'tan': elementwise(np.tan),
    'exp': elementwise(np.exp), 'log': elementwise(np.log), 'log10': elementwise(np.log10), 'log2': elementwise(np.log2), 'sqrt': elementwise(lambda v: np.sqrt(v) if np.all(np.isreal(v)) and np.all(np.real(v) >= 0) else np.sqrt(v.astype(complex))),
    'floor': elementwise(np.floor), 'ceil': elementwise(np.ceil), 'round': elementwise(lambda v: np.sign(v) * np.floor(np.abs(v) + 0.5)), 'fix': elementwise(np.trunc), 'sign': elementwise(np.sign),
    'real': elementwise(np.real), 'imag': elementwise(np.imag), 'conj': elementwise(np.conj), 'angle': elementwise(np.angle), 'arg': elementwise(np.angle),
    'double': elementwise(lambda v: v), 'fliplr': elementwise(lambda v: v[:, ::-1]), 'flipud': elementwise(lambda v: v[::-1]), 'transpose': elementwise(np.transpose), 'ctranspose': elementwise(lambda v: v.conj().T),
    'mag2db': elementwise(lambda v: 20 * np.log10(v)), 'db2mag': elementwise(lambda v: 10 ** (v / 20)),
    'sum': reduce_(np.sum), 'prod': reduce_(np.prod), 'mean': reduce_(np.mean), 'any': reduce_(np.any), 'all': reduce_(np.all),
    'max': minmax(np.max, np.maximum), 'min': minmax(np.min, np.minimum),
    'times': lambda a, b: M(num(a) * num(b)), 'plus': lambda a, b: M(num(a) + num(b)), 'minus': lambda a, b: M(num(a) - num(b)), 'rdivide': lambda a, b: M(num(a) / num(b)), 'power': lambda a, b: M(num(a) ** num(b)),
    'mod': lambda a, b: M(np.mod(num(a), num(b))), 'rem': lambda a, b: M(np.fmod(num(a), num(b))),
    'zeros': lambda *a: np.zeros(dims(a)), 'ones': lambda *a: np.ones(dims(a)), 'eye': lambda *a: np.eye(*dims(a)),
    'linspace': lambda a, b, n=M(100.): M(np.linspace(scalar(a), scalar(b), integer(n))),
    'colon': lambda a, b: M(np.arange(scalar(a), scalar(b) + 1e-10)),
    'numel': lambda v: M(float(len(v) if isinstance(v, str) else num(v).size)), 'length': lambda v: M(float(len(v) if isinstance(v, str) else (max(num(v).shape) if num(v).size else 0))),
    'rows': lambda v: M(float(num(v).shape[0])), 'columns': lambda v: M(float(num(v).shape[1])), 'size': size, 'isempty': lambda v: M(float(num(v).size == 0)),
    'reshape': lambda v, *a: num(v).reshape(dims(a) if len(a) > 1 else tuple(int(x) for x in num(a[0]).ravel()), order='F'),
    'horzcat': lambda *a: np.hstack([num(x) for x in a]), 'vertcat': lambda *a: np.vstack([num(x) for x in a]),
    'filter': lambda b, a, x: lfilter(b, a, x), 'conv': lambda a, b: M(np.convolve(num(a).ravel(), num(b).ravel())),
    'fft': lambda v, n=None: M(np.fft.fft(num(v), None if n is None else integer(n), axis=1 if num(v).shape[0] == 1 else 0)),
    'sprintf': lambda *a: fmt_c(a), 'num2str': lambda v: v if isinstance(v, str) else '%.5g' % scalar(v), 'strcmp': lambda a, b: M(float(a == b)), 'strcat': lambda *a: ''.join(a),
    'ultrwin': ultrwin,
    'ifft': lambda v: M(np.fft.ifft(num(v), axis=1 if num(v).shape[0] == 1 else 0)), 'polyval': lambda p, v: M(np.polyval(num(p).ravel(), num(v))),
    'norm': lambda v: M(float(np.linalg.norm(num(v)) if 1 in num(v).shape else np.linalg.norm(num(v), 2))), 'cumsum': lambda v: M(np.cumsum(num(v), axis=1 if num(v).shape[0] == 1 else 0)),
    'diff': lambda v: M(np.diff(num(v), axis=1 if num(v).shape[0] == 1 else 0)), 'dot': lambda a, b: M(float(np.dot(num(a).ravel(), num(b).ravel()))),
    'repmat': lambda v, *a: np.tile(num(v), dims(a)), 'logical': lambda v: num(v) != 0, 'not': lambda v: num(v) == 0, 'isreal': lambda v: M(not np.iscomplexobj(num(v))),
    'find': lambda v: (np.nonzero(num(v).ravel(order='F'))[0] + 1.0).reshape((1, -1) if num(v).shape[0] == 1 else (-1, 1)), 'nnz': lambda v: M(float(np.count_nonzero(num(v)))),
    'ischar': lambda v: M(isinstance(v, str)), 'isnumeric': lambda v: M(isinstance(v, np.ndarray)), 'isscalar': lambda v: M(num(v).size == 1), 'isvector': lambda v: M(1 in num(v).shape),
    'ndims': lambda v: M(2.0), 'int2str': lambda v: '%d' % round(scalar(v)), 'hypot': lambda a, b: M(np.hypot(num(a), num(b))), 'isnan': lambda v: np.isnan(num(v)), 'isinf': lambda v: np.isinf(num(v)),
    'iseven': lambda v: np.mod(num(v), 2) == 0, 'mtimes': lambda a, b: M(num(a) @ num(b) if num(a).size > 1 and num(b).size > 1 else num(a) * num(b)), 'cat': lambda d, *a: np.concatenate([num(x) for x in a], integer(d) - 1),
    'colon3': None, 'meshgrid': None, 'triu': lambda v: np.triu(num(v)), 'tril': lambda v: np.tril(num(v)), 'circshift': lambda v, n: np.roll(num(v), integer(n), axis=1 if num(v).shape[0] == 1 else 0),
    'isequal': lambda a, b: M(a == b if isinstance(a, str) or isinstance(b, str) else num(a).shape == num(b).shape and bool(np.all(num(a) == num(b)))),
    'bsxfun': lambda f, a, b: f(a, b), 'single': elementwise(lambda v: v.astype(np.float32).astype(float)), 'upper': str.upper, 'lower': str.lower, 'toupper': str.upper, 'tolower': str.lower,
}
FUNCS = {k: v for k, v in FUNCS.items() if v}
CONSTS = {'pi': math.pi, 'e': math.e, 'Inf': math.inf, 'inf': math.inf, 'NaN': math.nan, 'eps': 2.0 ** -52, 'true': True, 'false': False, 'Pi': math.pi, 'I': 1j, 'J': 1j, 'nan': math.nan, 'i': 1j, 'j': 1j}

def lfilter(b, a, x):
    b, a, v = num(b).ravel(), num(a).ravel(), num(x)
    y = np.zeros(v.size, complex if np.iscomplexobj(v) else float)
    for n in range(v.size):
        acc = sum(b[k] * v.flat[n - k] for k in range(min(len(b), n + 1)))
        acc -= sum(a[k] * y[n - k] for k in range(1, min(len(a), n + 1)))
        y[n] = acc / a[0]
    return y.reshape(v.shape)

# ------------------------------------------------------------------ interpreter

class Return(Exception): pass
class Break(Exception): pass
class Continue(Exception): pass

def num_str(x):
    if np.iscomplexobj(x):
        raise Unsupported('save: complex')
    return repr(int(x)) if x == int(x) and abs(x) < 1e15 else '%.17g' % x

class Interp:
    def __init__(self, path=('.',)):
        self.functions = {}
        self.files = []
        self.path = list(path)

    def run_text(self, text, env):
        p = Parser(text)
        body = p.program()
        self.functions.update(p.functions)
        try:
            self.block(body, env)
        except Return:
            pass

    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def truth(self, v):
        v = num(v)
        return v.size > 0 and bool(np.all(v != 0))

    def show(self, name, v):
        print(name, '=', v if isinstance(v, str) else '\n'.join(' '.join('%g' % x for x in r) if not np.iscomplexobj(r) else str(r) for r in v) if isinstance(v, np.ndarray) else v)

    def stmt(self, s, env):
        k = s[0]
        if k == 'expr':
            v = self.eval_n(s[1], env, 1)
            if v:
                if s[1][0] != 'name' or s[1][1] not in env:
                    env['ans'] = v[0]
                if not s[2]:
                    self.show('ans' if s[1][0] != 'name' else s[1][1], v[0])
        elif k == 'massign':
            v = self.eval_n(s[2], env, len(s[1]))
            if len(v) < len(s[1]):
                raise Unsupported('too few values')
            for n, x in zip(s[1], v):
                if n is not None:
                    env[n] = x
                    if not s[3]:
                        self.show(n, x)
        elif k == 'iassign':
            a = env.get(s[1], np.zeros((0, 0)))
            v = num(self.eval(s[3], env))
            idx = [self.index(x, a, d, len(s[2]), env) for d, x in enumerate(s[2])]
            if len(idx) == 1:
                top = int(idx[0].max()) + 1 if idx[0].size else 0
                if top > a.size:
                    if a.shape[0] > 1:
                        a = np.vstack([a, np.zeros((top - a.size, 1))]) if a.shape[1] == 1 else None
                    else:
                        a = np.hstack([a.reshape(1, -1), np.zeros((1, top - a.size))])
                    if a is None:
                        raise Unsupported('indexed assignment')
                a = a.astype(np.result_type(a, v)).copy(order='F')
                f = a.ravel(order='F')
                f[idx[0]] = v.ravel(order='F') if v.size > 1 else v.flat[0]
                a = f.reshape(a.shape, order='F')
            else:
                r, c = [int(x.max()) + 1 if x.size else 0 for x in idx]
                if r > a.shape[0] or c > a.shape[1]:
                    b = np.zeros((max(r, a.shape[0]), max(c, a.shape[1])), np.result_type(a, v))
                    b[:a.shape[0], :a.shape[1]] = a
                    a = b
                a = a.astype(np.result_type(a, v)).copy()
                a[np.ix_(*idx)] = v if v.size > 1 else v.flat[0]
            env[s[1]] = a
        elif k == 'if':
            for c, b in s[1]:
                if self.truth(self.eval(c, env)):
                    return self.block(b, env)
            self.block(s[2], env)
        elif k == 'for':
            v = self.eval(s[2], env)
            v = num(v)
            for col in range(v.shape[1]):
                env[s[1]] = v[:, col:col + 1].copy()
                try:
                    self.block(s[3], env)
                except Continue:
                    pass
                except Break:
                    break
        elif k == 'while':
            while self.truth(self.eval(s[1], env)):
                try:
                    self.block(s[2], env)
                except Continue:
                    pass
                except Break:
                    break
        elif k == 'until':
            while True:
                try:
                    self.block(s[2], env)
                except Continue:
                    pass
                except Break:
                    break
                if self.truth(self.eval(s[1], env)):
                    break
        elif k == 'switch':
            v = self.eval(s[1], env)
            for c, b in s[2]:
                c = self.eval(c, env)
                for x in c if isinstance(c, list) else [c]:
                    if isinstance(x, str) and isinstance(v, str) and x == v or not isinstance(x, str) and not isinstance(v, str) and scalar(x) == scalar(v):
                        return self.block(b, env)
            self.block(s[3], env)
        elif k == 'cmd':
            self.command(s[1], env)
        elif k == 'return': raise Return
        elif k == 'break': raise Break
        elif k == 'continue': raise Continue
        else:
            raise Unsupported(k)

    def command(self, w, env):
        if w[0] == 'save':
            opts = [x for x in w[1:] if x.startswith('-')]
            args = [x for x in w[1:] if not x.startswith('-')]
            if any(o not in ('-text', '-ascii') for o in opts) or not args:
                raise Unsupported('save options')
            names = args[1:] or sorted(env)
            with open(args[0], 'w') as f:
                if '-ascii' in opts:
                    for n in names:
                        for row in num(env[n]):
                            f.write(''.join(' %.8e' % x for x in row) + '\n')
                    return
                f.write('# Created by Octave 8.4.0, Thu Jan 01 00:00:00 1970 UTC <user@host>\n')
                for n in names:
                    if n not in env:
                        raise Unsupported('save: no variable ' + n)
                    v = env[n]
                    if isinstance(v, str):
                        f.write('# name: %s\n# type: string\n# elements: 1\n# length: %d\n%s\n\n\n' % (n, len(v), v))
                    elif num(v).size == 1:
                        f.write('# name: %s\n# type: scalar\n%s\n\n\n' % (n, num_str(v.flat[0])))
                    else:
                        f.write('# name: %s\n# type: matrix\n# rows: %d\n# columns: %d\n' % (n, v.shape[0], v.shape[1]))
                        for row in v:
                            f.write(''.join(' ' + num_str(x) for x in row) + '\n')
                        f.write('\n\n')
        elif w[0] in ('pkg', 'format', 'close', 'more', 'warning', 'clc', 'hold'):
            pass
        elif w[0] == 'clear':
            for n in w[1:] or list(env):
                env.pop(n, None)

    def index(self, x, a, d, n, env):
        size = a.size if n == 1 else a.shape[d]
        if x == ('colon',):
            return np.arange(size)
        v = self.eval(x, dict(env, end=M(float(size))))
        if isinstance(v, np.ndarray) and v.dtype == bool:
            return np.nonzero(v.ravel(order='F'))[0]
        v = num(v).ravel(order='F')
        if np.any(v != np.round(v)) or np.any(v < 1):
            raise Unsupported('index')
        return v.astype(int) - 1

    def eval(self, e, env):
        v = self.eval_n(e, env, 1)
        if not v:
            raise Unsupported('no value')
        return v[0]

    def eval_n(self, e, env, nout):
        k = e[0]
        if k == 'num':
            return [M(e[1])]
        if k == 'str':
            return [e[1]]
        if k == 'paren':
            return [self.eval(e[1], env)]
        if k == 'name':
            if e[1] in env:
                return [env[e[1]]]
            return self.call(e[1], [], nout)
        if k == 'index':
            if e[1][0] == 'name' and e[1][1] not in env:
                return self.call(e[1][1], [self.eval(a, env) for a in e[2]], nout, e[2], env)
            a = self.eval(e[1], env)
            if callable(a):
                return [a(*[self.eval(x, env) for x in e[2]])]
            a = num(a)
            if not e[2]:
                return [a]
            if len(e[2]) > 2:
                raise Unsupported('index')
            idx = [self.index(x, a, d, len(e[2]), env) for d, x in enumerate(e[2])]
            try:
                if len(idx) == 2:
                    return [a[np.ix_(*idx)]]
                f = a.ravel(order='F')[idx[0]]
            except IndexError:
                raise Unsupported('index out of bound')
            if e[2][0] == ('colon',) or a.shape[1] == 1 and a.shape[0] != 1:
                return [f.reshape(-1, 1)]
            if a.shape[0] != 1 and a.shape[1] != 1:
                sh = self.eval(e[2][0], dict(env, end=M(float(a.size))))
                return [f.reshape(-1, 1) if sh.dtype == bool else f.reshape(sh.shape, order='F')]
            return [f.reshape(1, -1)]
        if k == 'range':
            a, s, b = (float(scalar(self.eval(x, env))) for x in e[1:])
            n = int(math.floor((b - a) / s * (1 + 2.0 ** -50) + 1e-10)) + 1 if s else 0
            return [M(a + s * np.arange(max(n, 0)))]
        if k == 'matrix':
            rows = []
            for r in e[1]:
                vals = [self.eval(x, env) for x in r]
                if all(isinstance(v, str) for v in vals):
                    if len(e[1]) == 1:
                        return [''.join(vals)]
                    raise Unsupported('matrix of strings')
                vals = [num(v) for v in vals]
                vals = [v for v in vals if v.size] or vals[:1]
                rows.append(np.hstack(vals))
            rows = [r for r in rows if r.size]
            return [np.vstack(rows) if rows else np.zeros((0, 0))]
        if k == 'tr':
            return [num(self.eval(e[1], env)).T if e[2] else num(self.eval(e[1], env)).conj().T]
        if k == 'un':
            v = num(self.eval(e[2], env))
            return [-v if e[1] == '-' else v if e[1] == '+' else M(v == 0)]
        if k == 'lambda':
            return [lambda *a: self.eval(e[2], dict(env, **dict(zip(e[1], a))))]
        if k == 'handle':
            return [lambda *a: self.call(e[1], list(a), 1)[0]]
        if k == 'bin':
            o = e[1]
            if o in ('&&', '||'):
                l = self.truth(self.eval(e[2], env))
                if (o == '&&') != l:
                    return [M(float(l))]
                return [M(float(self.truth(self.eval(e[3], env))))]
            a, b = num(self.eval(e[2], env)), num(self.eval(e[3], env))
            with np.errstate(all='ignore'):
                if o == '*' and a.size != 1 and b.size != 1:
                    if a.shape[1] != b.shape[0]:
                        raise ValueError('operator *: nonconformant arguments')
                    return [a @ b]
                if o == '/' and b.size != 1:
                    raise Unsupported('matrix division')
                if o == '^' and (a.size != 1 or b.size != 1):
                    raise Unsupported('matrix power')
                f = {'+': np.add, '-': np.subtract, '*': np.multiply, '.*': np.multiply, '/': np.divide, './': np.divide,
                     '<': np.less, '<=': np.less_equal, '==': np.equal, '!=': np.not_equal, '>': np.greater, '>=': np.greater_equal,
                     '&': np.logical_and, '|': np.logical_or}.get(o)
                if o in ('^', '.^'):
                    if np.any(a < 0) and np.any(b != np.round(b)):
                        a = a.astype(complex)
                    f = np.power
                return [M(f(a, b))]
        raise Unsupported(k)

    def call(self, name, args, nout, ast=None, env=None):
        f = self.functions.get(name)
        if f is None and name not in self.functions:
            for d in self.path:
                p = os.path.join(d, name + '.m')
                if os.path.exists(p):
                    ps = Parser(open(p).read())
                    ps.program()
                    for n, v in ps.functions.items():
                        self.functions[n] = v
                    f = self.functions.get(name)
                    break
        if f:
            outs, params, body = f
            local = {}
            for i, (n, dflt) in enumerate(params):
                if i < len(args):
                    local[n] = args[i]
                elif dflt is not None:
                    local[n] = self.eval(dflt, local)
            if len(args) > len(params):
                raise ValueError(name + ': called with too many inputs')
            local['nargin'] = M(float(len(args)))
            local['nargout'] = M(float(nout))
            try:
                self.block(body, local)
            except Return:
                pass
            res = []
            for o in outs[:max(nout, 1)]:
                if o not in local:
                    if res or nout > 0 and outs:
                        if o == outs[0] and nout <= 1:
                            return []
                    raise ValueError("value for '%s' undefined" % o)
                res.append(local[o])
            return res
        if name in CONSTS and not args:
            return [M(CONSTS[name])]
        if name == 'freqz':
            return list(freqz(*args))
        if name in ('printf', 'disp', 'puts', 'fprintf', 'display'):
            if name == 'fprintf' and args and isinstance(args[0], np.ndarray):
                fd = integer(args.pop(0))
                if fd == 2:
                    sys.stderr.write(fmt_c(args))
                    return []
                if fd > 2:
                    self.files[fd - 3].write(fmt_c(args))
                    return []
                if fd != 1:
                    raise Unsupported('fprintf')
            sys.stdout.write(fmt_c(args) if name in ('printf', 'fprintf') else args[0] if name == 'puts' else (args[0] if isinstance(args[0], str) else ' '.join('%g' % x for x in num(args[0]).ravel())) + '\n')
            return []
        if name == 'fopen':
            try:
                self.files.append(open(args[0], args[1] if len(args) > 1 else 'r'))
            except OSError:
                return [M(-1.0), 'cannot open']
            return [M(float(len(self.files) + 2)), '']
        if name in ('fclose', 'fflush'):
            fd = integer(args[0])
            if fd > 2:
                getattr(self.files[fd - 3], name[1:])()
            return [M(0.0)]
        if name in ('stdout', 'stderr'):
            return [M(1.0 if name == 'stdout' else 2.0)]
        if name in ('assert',):
            if len(args) == 1 and not self.truth(args[0]):
                raise ValueError('assert failed')
            if len(args) > 1 and isinstance(args[1], np.ndarray):
                if not np.allclose(num(args[0]), num(args[1]), rtol=0, atol=abs(scalar(args[2])) if len(args) > 2 else 0):
                    raise ValueError('assert failed')
            return []
        if name in ('print_usage', 'usage'):
            raise ValueError('Invalid call')
        if name in ('validateattributes', 'addpath', 'figure', 'plot', 'axis', 'drawnow', 'tic', 'rehash', 'graphics_toolkit', 'page_screen_output', 'beep'):
            return []
        if name in ('max', 'min') and nout == 2 and len(args) == 1:
            v = num(args[0])
            ax = 1 if v.shape[0] == 1 else 0
            return [FUNCS[name](v), M((np.argmax if name == 'max' else np.argmin)(v, axis=ax) + 1.0).reshape(FUNCS[name](v).shape)]
        if name in ('size',) and nout > 1 and len(args) == 1:
            return [M(float(x)) for x in num(args[0]).shape]
        if name in ('error',):
            raise ValueError(fmt_c(args))
        if name in ('pkg', 'save', 'format', 'close', 'more', 'warning', 'clear', 'clc'):
            self.command([name] + args, env if env is not None else {})
            return []
        if name == 'exist':
            return [M(float(env is not None and args[0] in env))]
        if name in ('feval', 'arrayfun'):
            fn = args[0]
            g = fn if callable(fn) else lambda *a: self.call(fn, list(a), 1)[0]
            if name == 'feval':
                return [g(*args[1:])]
            v = num(args[1])
            return [np.array([scalar(g(M(x))) for x in v.ravel()]).reshape(v.shape)]
        if name in ('exit', 'quit'):
            sys.stdout.flush()
            os._exit(integer(args[0]) if args else 0)
        if name in FUNCS:
            with np.errstate(all='ignore'):
                return [FUNCS[name](*args)]
        raise Unsupported("'%s' undefined" % name)

def main():
    it = Interp()
    env = {}
    args = sys.argv[1:]
    ran = False
    try:
        while args:
            a = args.pop(0)
            if a in ('-q', '--quiet', '--silent', '--no-gui', '--no-window-system', '-W', '-f', '--norc', '-H', '--no-history', '--no-line-editing', '--traditional', '--cli', '--no-init-file', '--no-site-file'):
                continue
            if a in ('--eval', '-e'):
                it.run_text(args.pop(0), env)
                ran = True
            elif a.startswith('--eval='):
                it.run_text(a[7:], env)
                ran = True
            elif a in ('-p', '--path'):
                it.path.append(args.pop(0))
            elif a == '-':
                it.run_text(sys.stdin.read(), env)
                ran = True
            elif a.startswith('-'):
                raise Unsupported('option ' + a)
            else:
                it.run_text(open(a).read(), env)
                ran = True
                break
        if not ran:
            it.run_text(sys.stdin.read(), env)
    except Unsupported as e:
        sys.stdout.flush()
        sys.stderr.write('octave stand-in: not supported: %s\n' % e)
        marker = os.environ.get('OCTAVE_UNSUPPORTED')
        if marker:
            with open(marker, 'a') as f:
                f.write('%s\n' % e)
        return 3
    except (ValueError, KeyError, IndexError, TypeError, OSError, OverflowError, ZeroDivisionError) as e:
        sys.stdout.flush()
        sys.stderr.write('error: %s\n' % e)
        return 1
    return 0

if __name__ == '__main__':
    sys.exit(main())
