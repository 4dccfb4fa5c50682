"""Lexer and recursive-descent parser for the Solidity (and inline Yul)
subset that the contracts in /repo/src use, and then some.

The tree is made of plain tuples/dicts; vh/sol/gen.py turns it into Python.
"""
import re


class SolError(Exception):
    pass


TOK = re.compile(r'''
  (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
 |(?P<hexstr>(?:hex)(?:"[0-9a-fA-F_]*"|'[0-9a-fA-F_]*'))
 |(?P<unistr>unicode"(?:\\.|[^"\\])*")
 |(?P<str>"(?:\\.|[^"\\\n])*"|'(?:\\.|[^'\\\n])*')
 |(?P<hex>0[xX][0-9a-fA-F_]+)
 |(?P<num>(?:\d[\d_]*)(?:\.\d[\d_]*)?(?:[eE]-?\d+)?|\.\d[\d_]*(?:[eE]-?\d+)?)
 |(?P<id>[A-Za-z_$][A-Za-z0-9_$]*)
 |(?P<op>>>>=|<<=|>>=|>>>|\*\*|=>|->|:=|\+\+|--|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|\|=|&=|\^=|<<|>>|[-+*/%&|^~!<>=?:;,.(){}\[\]])
''', re.X | re.S)

ESC = {'n': 10, 't': 9, 'r': 13, '0': 0, '\\': 92, '"': 34, "'": 39, 'b': 8, 'f': 12, 'v': 11}


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            d = s[i + 1]
            if d == 'x':
                out.append(int(s[i + 2:i + 4], 16))
                i += 4
                continue
            if d == 'u':
                out += chr(int(s[i + 2:i + 6], 16)).encode()
                i += 6
                continue
            if d == '\n':
                i += 2
                continue
            out.append(ESC[d])
            i += 2
        else:
            out += c.encode()
            i += 1
    return bytes(out)


def lex(src, name):
    toks = []
    pos = 0
    line = 1
    while pos < len(src):
        m = TOK.match(src, pos)
        if not m:
            raise SolError('%s:%d: cannot read %r' % (name, line, src[pos:pos + 20]))
        k = m.lastgroup
        t = m.group()
        if k != 'ws':
            if k == 'str':
                toks.append(('str', unescape(t[1:-1]), line))
            elif k == 'unistr':
                toks.append(('str', unescape(t[8:-1]), line))
            elif k == 'hexstr':
                toks.append(('str', bytes.fromhex(t[4:-1].replace('_', '')), line))
            elif k == 'hex':
                toks.append(('hex', t.replace('_', ''), line))
            elif k == 'num':
                toks.append(('num', t.replace('_', ''), line))
            else:
                toks.append((k, t, line))
        line += t.count('\n')
        pos = m.end()
    toks.append(('eof', '', line))
    return toks


ELEM = re.compile(r'^(u?int\d*|bytes\d+|bytes|string|address|bool|byte)$')
UNITS = {'wei': 1, 'gwei': 10**9, 'ether': 10**18, 'seconds': 1, 'minutes': 60, 'hours': 3600,
         'days': 86400, 'weeks': 604800}
LOCS = ('memory', 'storage', 'calldata')

BINPREC = [
    ['||'], ['&&'], ['==', '!='], ['<', '>', '<=', '>='], ['|'], ['^'], ['&'], ['<<', '>>', '>>>'],
    ['+', '-'], ['*', '/', '%'],
]
ASSIGN = ('=', '+=', '-=', '*=', '/=', '%=', '|=', '&=', '^=', '<<=', '>>=')


class P:
    def __init__(self, src, name):
        self.t = lex(src, name)
        self.i = 0
        self.name = name

    # ---- basics
    def err(self, what):
        k, v, ln = self.t[self.i]
        raise SolError('%s:%d: %s near %r' % (self.name, ln, what, v))

    @property
    def v(self):
        k, v, _ = self.t[self.i]
        return v if k in ('id', 'op') else None

    @property
    def k(self):
        return self.t[self.i][0]

    @property
    def line(self):
        return self.t[self.i][2]

    def peek(self, d=1):
        if self.i + d >= len(self.t):
            return None
        k, v, _ = self.t[self.i + d]
        return v if k in ('id', 'op') else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def acc(self, v):
        if self.v == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            self.err('expected %r' % v)

    def ident(self):
        if self.k != 'id':
            self.err('expected a name')
        return self.next()[1]

    # ---- file
    def file(self):
        out = []
        while self.k != 'eof':
            v = self.v
            if v == 'pragma':
                while not self.acc(';'):
                    self.next()
            elif v == 'import':
                out.append(self.imp())
            elif v in ('contract', 'library', 'interface', 'abstract'):
                out.append(self.contract())
            elif v == 'struct':
                out.append(self.struct())
            elif v == 'enum':
                out.append(self.enum())
            elif v == 'function':
                out.append(self.function())
            elif v == 'error':
                out.append(self.error())
            elif v == 'event':
                self.skip_semi()
            elif v == 'using':
                out.append(self.using())
            elif v == 'type':
                self.err('user types are not supported')
            else:
                out.append(self.statevar())
        return out

    def skip_semi(self):
        while not self.acc(';'):
            self.next()

    def imp(self):
        self.exp('import')
        if self.k == 'str':
            path = self.next()[1].decode()
            alias = None
            if self.acc('as'):
                alias = self.ident()
            self.exp(';')
            return ('import', path, None, alias)
        if self.acc('*'):
            self.exp('as')
            alias = self.ident()
            self.exp('from')
            path = self.next()[1].decode()
            self.exp(';')
            return ('import', path, None, alias)
        self.exp('{')
        names = []
        while not self.acc('}'):
            n = self.ident()
            a = n
            if self.acc('as'):
                a = self.ident()
            names.append((n, a))
            self.acc(',')
        self.exp('from')
        path = self.next()[1].decode()
        self.exp(';')
        return ('import', path, names, None)

    def using(self):
        self.exp('using')
        if self.v == '{':
            self.next()
            fs = []
            while not self.acc('}'):
                fs.append(self.path())
                self.acc(',')
            lib = ('fns', fs)
        else:
            lib = ('lib', self.path())
        self.exp('for')
        ty = None if self.acc('*') else self.type()
        self.acc('global')
        self.exp(';')
        return ('using', lib, ty)

    def path(self):
        n = self.ident()
        while self.acc('.'):
            n += '.' + self.ident()
        return n

    def contract(self):
        abstract = self.acc('abstract')
        kind = self.next()[1]
        name = self.ident()
        bases = []
        if self.acc('is'):
            while True:
                b = self.path()
                args = None
                if self.v == '(':
                    args = self.args()
                bases.append((b, args))
                if not self.acc(','):
                    break
        self.exp('{')
        items = []
        while not self.acc('}'):
            v = self.v
            if v == 'function' or v in ('constructor', 'receive', 'fallback') and self.peek() == '(':
                items.append(self.function())
            elif v == 'modifier':
                items.append(self.modifier())
            elif v == 'struct':
                items.append(self.struct())
            elif v == 'enum':
                items.append(self.enum())
            elif v == 'event':
                self.skip_semi()
            elif v == 'error' and self.t[self.i + 1][0] == 'id':
                items.append(self.error())
            elif v == 'using':
                items.append(self.using())
            else:
                items.append(self.statevar())
        return ('contract', kind, name, bases, items)

    def struct(self):
        self.exp('struct')
        name = self.ident()
        self.exp('{')
        m = []
        while not self.acc('}'):
            ty = self.type()
            m.append((ty, self.ident()))
            self.exp(';')
        return ('struct', name, m)

    def enum(self):
        self.exp('enum')
        name = self.ident()
        self.exp('{')
        m = []
        while not self.acc('}'):
            m.append(self.ident())
            self.acc(',')
        return ('enum', name, m)

    def error(self):
        self.exp('error')
        name = self.ident()
        ps = self.params()
        self.exp(';')
        return ('error', name, ps)

    def params(self):
        self.exp('(')
        ps = []
        while not self.acc(')'):
            ty = self.type()
            loc = None
            self.acc('indexed')
            if self.v in LOCS:
                loc = self.next()[1]
            if self.v == 'payable':
                self.next()
            nm = self.ident() if self.k == 'id' else None
            ps.append((ty, loc, nm))
            self.acc(',')
        return ps

    def function(self):
        line = self.line
        kw = self.next()[1]
        name = kw if kw != 'function' else self.ident()
        ps = self.params()
        f = {'k': 'function', 'name': name, 'params': ps, 'rets': [], 'vis': None, 'mut': None, 'mods': [],
             'virtual': False, 'body': None, 'line': line, 'special': kw != 'function'}
        while True:
            v = self.v
            if v in ('external', 'public', 'internal', 'private'):
                f['vis'] = self.next()[1]
            elif v in ('pure', 'view', 'payable'):
                f['mut'] = self.next()[1]
            elif v == 'virtual':
                self.next()
            elif v == 'override':
                self.next()
                if self.v == '(':
                    while not self.acc(')'):
                        self.next()
            elif v == 'returns':
                self.next()
                f['rets'] = self.params()
            elif v == ';':
                self.next()
                return f
            elif v == '{':
                f['body'] = self.block()
                return f
            else:
                n = self.path()
                f['mods'].append((n, self.args() if self.v == '(' else []))

    def modifier(self):
        self.exp('modifier')
        name = self.ident()
        ps = self.params() if self.v == '(' else []
        while self.v in ('virtual', 'override'):
            self.next()
        return {'k': 'modifier', 'name': name, 'params': ps, 'body': self.block()}

    def statevar(self):
        ty = self.type()
        f = {'k': 'var', 'type': ty, 'vis': 'internal', 'const': False, 'init': None, 'line': self.line}
        while True:
            v = self.v
            if v in ('public', 'private', 'internal'):
                f['vis'] = self.next()[1]
            elif v == 'constant':
                f['const'] = True
                self.next()
            elif v in ('immutable', 'override', 'transient'):
                self.next()
            else:
                break
        f['name'] = self.ident()
        if self.acc('='):
            f['init'] = self.expr()
        self.exp(';')
        return f

    # ---- types
    def type(self):
        v = self.v
        if v == 'mapping':
            self.next()
            self.exp('(')
            k = self.type()
            if self.k == 'id':
                self.next()
            self.exp('=>')
            val = self.type()
            if self.k == 'id':
                self.next()
            self.exp(')')
            t = ('mapping', k, val)
        elif v == 'function':
            self.err('function types are not supported')
        elif self.k == 'id':
            n = self.next()[1]
            if ELEM.match(n):
                t = ('elem', n)
                if n == 'address':
                    self.acc('payable')
            else:
                while self.v == '.':
                    self.next()
                    n += '.' + self.ident()
                t = ('user', n)
        else:
            self.err('expected a type')
        while self.v == '[':
            self.next()
            if self.acc(']'):
                t = ('arr', t, None)
            else:
                e = self.expr()
                self.exp(']')
                t = ('arr', t, e)
        return t

    def try_decl(self):
        """A variable declaration 'T [loc] name' starting here? Returns
        (type, loc, name) and consumes it, or restores and returns None."""
        save = self.i
        if self.k != 'id':
            return None
        try:
            ty = self.type()
        except SolError:
            self.i = save
            return None
        loc = None
        if self.v in LOCS:
            loc = self.next()[1]
        if self.k == 'id' and self.v not in ('is',):
            nm = self.next()[1]
            if self.v in ('=', ';', ',', ')'):
                return (ty, loc, nm)
        self.i = save
        return None

    # ---- statements
    def block(self):
        self.exp('{')
        out = []
        while not self.acc('}'):
            out.append(self.stmt())
        return ('block', out)

    def stmt(self):
        line = self.line
        v = self.v
        if v == '{':
            return self.block()
        if v == 'unchecked':
            self.next()
            return ('unchecked', self.block())
        if v == 'if':
            self.next()
            self.exp('(')
            c = self.expr()
            self.exp(')')
            a = self.stmt()
            b = self.stmt() if self.acc('else') else None
            return ('if', c, a, b, line)
        if v == 'while':
            self.next()
            self.exp('(')
            c = self.expr()
            self.exp(')')
            return ('for', None, c, None, self.stmt(), line)
        if v == 'do':
            self.next()
            b = self.stmt()
            self.exp('while')
            self.exp('(')
            c = self.expr()
            self.exp(')')
            self.exp(';')
            return ('do', c, b, line)
        if v == 'for':
            self.next()
            self.exp('(')
            init = None if self.acc(';') else self.simple()
            cond = None
            if not self.acc(';'):
                cond = self.expr()
                self.exp(';')
            post = None if self.v == ')' else self.expr()
            self.exp(')')
            return ('for', init, cond, post, self.stmt(), line)
        if v == 'return':
            self.next()
            e = None if self.v == ';' else self.expr()
            self.exp(';')
            return ('return', e, line)
        if v == 'break':
            self.next()
            self.exp(';')
            return ('break',)
        if v == 'continue':
            self.next()
            self.exp(';')
            return ('continue',)
        if v == '_' and self.peek() == ';':
            self.next()
            self.next()
            return ('placeholder',)
        if v == 'assembly':
            self.next()
            if self.k == 'str':
                self.next()
            if self.acc('('):
                while not self.acc(')'):
                    self.next()
            return ('asm', self.yblock(), line)
        if v == 'emit':
            self.next()
            e = self.expr()
            self.exp(';')
            return ('emit', e)
        if v == 'revert' and self.t[self.i + 1][0] == 'id':
            self.next()
            e = self.expr()
            self.exp(';')
            return ('revert', e, line)
        if v == 'try':
            self.next()
            e = self.expr()
            rets = []
            if self.acc('returns'):
                rets = self.params()
            ok = self.block()
            cats = []
            while self.acc('catch'):
                kind, ps = None, []
                if self.k == 'id':
                    kind = self.next()[1]
                if self.v == '(':
                    ps = self.params()
                cats.append((kind, ps, self.block()))
            return ('try', e, rets, ok, cats, line)
        return self.simple()

    def simple(self):
        """Declaration or expression, with its ';'."""
        line = self.line
        if self.v == '(':
            # tuple declaration?
            save = self.i
            self.next()
            parts = []
            isdecl = False
            good = True
            while True:
                if self.v == ',':
                    self.next()
                    parts.append(None)
                    if self.v == ')':
                        self.next()
                        parts.append(None)
                        break
                    continue
                if self.v == ')':
                    self.next()
                    break
                d = self.try_decl()
                if d is None:
                    good = False
                    break
                isdecl = True
                parts.append(d)
                if self.acc(')'):
                    break
                self.exp(',')
                if self.v == ')':
                    self.next()
                    parts.append(None)
                    break
            if good and isdecl and self.v == '=':
                self.next()
                e = self.expr()
                self.exp(';')
                return ('tdecl', parts, e, line)
            self.i = save
        d = self.try_decl()
        if d is not None:
            e = None
            if self.acc('='):
                e = self.expr()
            self.exp(';')
            return ('decl', d, e, line)
        e = self.expr()
        self.exp(';')
        return ('expr', e, line)

    # ---- expressions
    def expr(self):
        e = self.ternary()
        if self.v in ASSIGN:
            line = self.line
            op = self.next()[1]
            r = self.expr()
            return ('assign', op, e, r, line)
        return e

    def ternary(self):
        c = self.binary(0)
        if self.acc('?'):
            a = self.expr()
            self.exp(':')
            b = self.expr()
            return ('tern', c, a, b)
        return c

    def binary(self, lv):
        if lv == len(BINPREC):
            return self.power()
        e = self.binary(lv + 1)
        while self.v in BINPREC[lv]:
            line = self.line
            op = self.next()[1]
            r = self.binary(lv + 1)
            e = ('bin', op, e, r, line)
        return e

    def power(self):
        e = self.unary()
        if self.v == '**':
            line = self.line
            self.next()
            return ('bin', '**', e, self.power(), line)
        return e

    def unary(self):
        v = self.v
        if v in ('!', '~', '-', '+'):
            line = self.line
            self.next()
            return ('un', v, self.unary(), line)
        if v in ('++', '--'):
            line = self.line
            self.next()
            return ('inc', v, True, self.unary(), line)
        if v == 'delete':
            self.next()
            return ('delete', self.unary())
        return self.postfix()

    def args(self):
        self.exp('(')
        if self.v == '{':
            self.next()
            out = {}
            while not self.acc('}'):
                n = self.ident()
                self.exp(':')
                out[n] = self.expr()
                self.acc(',')
            self.exp(')')
            return out
        out = []
        while not self.acc(')'):
            out.append(self.expr())
            if not self.acc(','):
                self.exp(')')
                break
        return out

    def postfix(self):
        e = self.primary()
        while True:
            v = self.v
            line = self.line
            if v == '.':
                self.next()
                n = self.next()[1]
                e = ('member', e, n, line)
            elif v == '[':
                self.next()
                a = None if self.v == ':' or self.v == ']' else self.expr()
                if self.acc(':'):
                    b = None if self.v == ']' else self.expr()
                    self.exp(']')
                    e = ('slice', e, a, b, line)
                else:
                    self.exp(']')
                    e = ('index', e, a, line)
            elif v == '(':
                e = ('call', e, self.args(), {}, line)
            elif v == '{' and e[0] in ('member', 'new') and self.t[self.i + 1][0] == 'id' and self.peek(2) == ':':
                self.next()
                opts = {}
                while not self.acc('}'):
                    n = self.ident()
                    self.exp(':')
                    opts[n] = self.expr()
                    self.acc(',')
                e = ('call', e, self.args(), opts, line)
            elif v in ('++', '--'):
                self.next()
                e = ('inc', v, False, e, line)
            else:
                return e

    def primary(self):
        k, v, line = self.t[self.i]
        if k == 'num':
            self.next()
            mul = 1
            if self.k == 'id' and self.t[self.i][1] in UNITS:
                mul = UNITS[self.next()[1]]
            if '.' in v or 'e' in v or 'E' in v:
                from fractions import Fraction
                f = Fraction(v) * mul
                if f.denominator != 1:
                    raise SolError('%s:%d: fractional literal' % (self.name, line))
                return ('lit', int(f), None)
            return ('lit', int(v) * mul, None)
        if k == 'hex':
            self.next()
            return ('lit', int(v, 16), len(v) - 2)
        if k == 'str':
            self.next()
            s = v
            while self.k == 'str':
                s += self.next()[1]
            return ('str', s)
        if k == 'id':
            if v in ('true', 'false'):
                self.next()
                return ('bool', v == 'true')
            if v == 'new':
                self.next()
                ty = self.type()
                return ('new', ty)
            if v == 'type' and self.peek() == '(':
                self.next()
                self.next()
                ty = self.type()
                self.exp(')')
                return ('typeof', ty)
            if ELEM.match(v) or v == 'payable':
                self.next()
                return ('elemtype', v)
            self.next()
            return ('id', v, line)
        if v == '(':
            self.next()
            parts = []
            if self.acc(')'):
                return ('tuple', [])
            while True:
                if self.v in (',', ')'):
                    parts.append(None)
                else:
                    parts.append(self.expr())
                if self.acc(')'):
                    break
                self.exp(',')
            if len(parts) == 1:
                return ('paren', parts[0])
            return ('tuple', parts)
        if v == '[':
            self.next()
            parts = []
            while not self.acc(']'):
                parts.append(self.expr())
                self.acc(',')
            return ('arrlit', parts, line)
        self.err('expected an expression')

    # ---- Yul
    def yblock(self):
        self.exp('{')
        out = []
        while not self.acc('}'):
            out.append(self.ystmt())
        return ('yblock', out)

    def ynames(self):
        ns = [self.ident()]
        if self.acc(':'):
            self.ident()
        while self.acc(','):
            ns.append(self.ident())
            if self.acc(':'):
                self.ident()
        return ns

    def ystmt(self):
        v = self.v
        line = self.line
        if v == '{':
            return self.yblock()
        if v == 'let':
            self.next()
            ns = self.ynames()
            e = self.yexpr() if self.acc(':=') else None
            return ('ylet', ns, e, line)
        if v == 'if':
            self.next()
            return ('yif', self.yexpr(), self.yblock(), line)
        if v == 'for':
            self.next()
            a = self.yblock()
            c = self.yexpr()
            p = self.yblock()
            return ('yfor', a, c, p, self.yblock(), line)
        if v == 'switch':
            self.next()
            e = self.yexpr()
            cases, default = [], None
            while self.v in ('case', 'default'):
                if self.next()[1] == 'case':
                    lit = self.yexpr()
                    cases.append((lit, self.yblock()))
                else:
                    default = self.yblock()
            return ('yswitch', e, cases, default, line)
        if v == 'function':
            self.next()
            n = self.ident()
            self.exp('(')
            ps = [] if self.v == ')' else self.ynames()
            self.exp(')')
            rs = self.ynames() if self.acc('->') else []
            return ('yfun', n, ps, rs, self.yblock(), line)
        if v in ('break', 'continue', 'leave'):
            self.next()
            return ('y' + v,)
        # assignment or call
        save = self.i
        n = self.yname()
        if self.v in (',', ':='):
            ns = [n]
            while self.acc(','):
                ns.append(self.yname())
            self.exp(':=')
            return ('yassign', ns, self.yexpr(), line)
        self.i = save
        return ('yexpr', self.yexpr(), line)

    def yname(self):
        n = self.ident()
        while self.v == '.':
            self.next()
            n += '.' + self.next()[1]
        return n

    def yexpr(self):
        k, v, line = self.t[self.i]
        if k == 'num':
            self.next()
            return ('ylit', int(v))
        if k == 'hex':
            self.next()
            return ('ylit', int(v, 16))
        if k == 'str':
            self.next()
            return ('ylit', int.from_bytes(v.ljust(32, b'\0')[:32], 'big'))
        if v in ('true', 'false'):
            self.next()
            return ('ylit', int(v == 'true'))
        n = self.yname()
        if self.acc('('):
            a = []
            while not self.acc(')'):
                a.append(self.yexpr())
                self.acc(',')
            return ('ycall', n, a, line)
        return ('yid', n, line)


def parse(src, name):
    return P(src, name).file()
