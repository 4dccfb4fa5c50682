"""Translates parsed Solidity into Python functions that run on rt.Ctx.

Nothing about the contracts of this repository is known here; the subset of
the language is that of the parser.  Anything outside raises SolError, which
the checks report as "not decided", never as a violation.
"""
import os
import sys

from . import rt as R
from .parse import ELEM, SolError, parse

M = (1 << 256) - 1
U256 = ('uint', 256)
BOOL = ('bool',)
BYTES = ('bytes',)
STRING = ('string',)
ADDR = ('addr',)


class X:
    __slots__ = ('code', 't', 'loc', 'lv', 'kind', 'ex')

    def __init__(self, code, t=None, loc=None, lv=None, kind='val', ex=None):
        self.code, self.t, self.loc, self.lv, self.kind, self.ex = code, t, loc, lv, kind, ex


class Fn:
    def __init__(self, ast, file, contract=None):
        self.ast, self.file, self.contract = ast, file, contract
        self.name = ast['name']


class Cls:
    """A deployable contract."""

    def __init__(self, name):
        self.name = name
        self.fns = {}
        self.inits = []
        self.ctor = None
        self.fallback = None
        self.internal = {}


class Entry:
    def __init__(self, sig, fn, params, rets, mut):
        self.sig, self.fn, self.params, self.rets, self.mut = sig, fn, params, rets, mut


class Contract:
    def __init__(self, ast, file):
        _, self.kind, self.name, self.bases, self.items = ast
        self.file = file
        self.structs, self.enums, self.errors, self.fns, self.vars, self.mods, self.usings = {}, {}, {}, [], [], {}, []
        self.ctor = self.fallback = None
        for it in self.items:
            if isinstance(it, dict):
                if it['k'] == 'function':
                    if it['special'] and it['name'] == 'constructor':
                        self.ctor = Fn(it, file, self)
                    elif it['special']:
                        self.fallback = Fn(it, file, self)
                    else:
                        self.fns.append(Fn(it, file, self))
                elif it['k'] == 'modifier':
                    self.mods[it['name']] = (it, self)
                else:
                    it['owner'] = self
                    self.vars.append(it)
            elif it[0] == 'struct':
                self.structs[it[1]] = it
            elif it[0] == 'enum':
                self.enums[it[1]] = it
            elif it[0] == 'error':
                self.errors[it[1]] = it
            elif it[0] == 'using':
                self.usings.append(it)
        self._lin = None

    def lin(self, unit):
        if self._lin is None:
            out = [self]
            for b, _ in reversed(self.bases):
                s = unit.sym(self.file, b)
                if s is None or s[0] != 'contract':
                    raise SolError('%s: unknown base %s' % (self.name, b))
                for c in s[1].lin(unit):
                    if c in out:
                        out.remove(c)
                    out.append(c)
            self._lin = out
        return self._lin


class File:
    def __init__(self, path):
        self.path = path
        self.syms = {}
        self.imports = []
        self.usings = []
        self.own = {}


class Unit:
    def __init__(self, root, stubs):
        self.root, self.stubs = root, stubs
        self.files = {}
        self.compiled = {}
        self.classes = {}
        self.layouts = {}
        self.ns = {k: getattr(R, k) for k in dir(R) if not k.startswith('__')}
        self.H = []
        self.Hname = []
        self.ns['H'] = self.H
        self.n = 0
        self.srcs = {}

    # ---- files and symbols
    def resolve(self, frm, path):
        if path.startswith('.'):
            p = os.path.normpath(os.path.join(os.path.dirname(frm), path))
            q = os.path.relpath(p, self.root).split(os.sep)
            if os.path.isfile(p) or q[0] != 'lib':
                return p
            # a submodule that is empty here
            return os.path.join(self.stubs, *(x for i, x in enumerate(q) if i > 0 and not (i == 2 and x in ('src', 'contracts'))))
        head, _, rest = path.partition('/')
        cands = [os.path.join(self.root, path)]
        remap = os.path.join(self.root, 'remappings.txt')
        if os.path.exists(remap):
            for ln in open(remap):
                a, eq, b = ln.strip().partition('=')
                if eq and path.startswith(a):
                    cands.append(os.path.join(self.root, b + path[len(a):]))
        for sub in ('src', 'contracts', ''):
            cands.append(os.path.join(self.root, 'lib', head, sub, rest))
        cands.append(os.path.join(self.stubs, path))
        for c in cands:
            if os.path.isfile(c):
                return os.path.normpath(c)
        raise SolError('%s: cannot find %s' % (frm, path))

    def load(self, path):
        path = os.path.normpath(path)
        if path in self.files:
            return self.files[path]
        f = File(path)
        self.files[path] = f
        with open(path, encoding='utf-8') as fh:
            items = parse(fh.read(), os.path.relpath(path, self.root))
        for it in items:
            if isinstance(it, dict):
                if it['k'] == 'function':
                    f.own.setdefault(it['name'], ('fns', []))[1].append(Fn(it, f))
                else:
                    it['owner'] = None
                    f.own[it['name']] = ('const', it, f)
            elif it[0] == 'import':
                f.imports.append(it)
            elif it[0] == 'contract':
                f.own[it[2]] = ('contract', Contract(it, f))
            elif it[0] == 'struct':
                f.own[it[1]] = ('struct', it, f, None)
            elif it[0] == 'enum':
                f.own[it[1]] = ('enum', it)
            elif it[0] == 'error':
                f.own[it[1]] = ('error', it, f, None)
            elif it[0] == 'using':
                f.usings.append(it)
        for imp in f.imports:
            self.load(self.resolve(path, imp[1]))
        return f

    def table(self, f, seen=None):
        """All names visible at file level (own and imported)."""
        if getattr(f, 'tab', None) is not None:
            return f.tab
        seen = seen or set()
        if f.path in seen:
            return f.own
        seen = seen | {f.path}
        tab = {}

        def add(n, s):
            if n in tab and tab[n][0] == 'fns' and s[0] == 'fns':
                fs = list(tab[n][1])
                for x in s[1]:
                    if x not in fs:
                        fs.append(x)
                tab[n] = ('fns', fs)
            else:
                tab[n] = s
        for imp in f.imports:
            g = self.files[self.resolve(f.path, imp[1])]
            gt = self.table(g, seen)
            if imp[2] is None and imp[3] is None:
                for n, s in gt.items():
                    add(n, s)
            elif imp[2] is None:
                add(imp[3], ('module', g))
            else:
                for n, a in imp[2]:
                    if n not in gt:
                        raise SolError('%s: %s has no %s' % (f.path, g.path, n))
                    add(a, gt[n])
        for n, s in f.own.items():
            add(n, s)
        if len(seen) == 1:
            f.tab = tab
        return tab

    def sym(self, f, name):
        tab = self.table(f)
        if '.' in name:
            a, b = name.split('.', 1)
            s = tab.get(a)
            if s and s[0] == 'module':
                return self.sym(s[1], b)
            return None
        return tab.get(name)

    # ---- types
    def type(self, ast, f, c=None):
        k = ast[0]
        if k == 'elem':
            n = ast[1]
            if n in ('bytes', 'string', 'bool'):
                return (n,)
            if n == 'address':
                return ADDR
            if n == 'byte':
                return ('fb', 1)
            if n.startswith('uint'):
                return ('uint', int(n[4:] or 256))
            if n.startswith('int'):
                return ('int', int(n[3:] or 256))
            return ('fb', int(n[5:]))
        if k == 'arr':
            n = None
            if ast[2] is not None:
                n = self.constval(ast[2], f, c)
            return ('arr', self.type(ast[1], f, c), n)
        if k == 'mapping':
            return ('map', self.type(ast[1], f, c), self.type(ast[2], f, c))
        n = ast[1]
        if c is not None:
            for b in c.lin(self):
                if n in b.structs:
                    return self.structtype(b.structs[n], b.file, b)
                if n in b.enums:
                    return ('enum', n, len(b.enums[n][2]))
        s = self.sym(f, n)
        if s is None and '.' in n:
            a, b = n.split('.', 1)
            s = self.sym(f, a)
            if s and s[0] == 'contract':
                return self.type(('user', b), s[1].file, s[1])
        if s is None:
            raise SolError('%s: unknown type %s' % (f.path, n))
        if s[0] == 'struct':
            return self.structtype(s[1], s[2], s[3])
        if s[0] == 'enum':
            return ('enum', n, len(s[1][2]))
        if s[0] == 'contract':
            return ('contract', s[1].name, id(s[1])) if False else ('contract', s[1].name)
        raise SolError('%s: %s is not a type' % (f.path, n))

    def structtype(self, ast, f, c):
        return ('struct', ast[1], tuple((n, self.type(t, f, c)) for t, n in ast[2]))

    def constval(self, e, f, c):
        x = FnGen(self, f, c).expr(e)
        if x.t and x.t[0] == 'lit':
            return x.t[1]
        return eval(x.code, dict(self.ns))

    # ---- contracts
    def findcontract(self, name):
        for f in self.files.values():
            s = f.own.get(name)
            if s and s[0] == 'contract':
                return s[1]
        raise SolError('no contract %s' % name)

    def contract(self, name):
        if name not in self.classes:
            self.classes[name] = None
            self.classes[name] = self.build(self.findcontract(name))
        return self.classes[name]

    def sig(self, fn):
        return fn.name + '(' + ','.join(R.canon(self.type(t, fn.file, fn.contract)) for t, _, _ in fn.ast['params']) + ')'

    def layout(self, c):
        """slot of every state variable"""
        out = self.layouts.get(id(c))
        if out is not None:
            return out
        out = self.layouts[id(c)] = {}
        s = 0
        for b in reversed(c.lin(self)):
            for v in b.vars:
                if v['const']:
                    continue
                out[id(v)] = s
                s += R.slots(self.type(v['type'], b.file, b))
        return out

    def build(self, c):
        cls = Cls(c.name)
        lin = c.lin(self)
        for b in lin:
            for fn in b.fns:
                if fn.ast['body'] is None or fn.ast['vis'] not in ('public', 'external'):
                    continue
                sig = self.sig(fn)
                sel = R.selector(sig)
                if sel in cls.fns:
                    continue
                py = self.fn(fn, c)
                ps = [(self.type(t, fn.file, b), l) for t, l, _ in fn.ast['params']]
                rs = [(self.type(t, fn.file, b), l) for t, l, _ in fn.ast['rets']]
                cls.fns[sel] = Entry(sig, self.ns[py], ps, rs, fn.ast['mut'])
            for v in b.vars:
                if v['vis'] == 'public':
                    self.getter(cls, c, b, v)
            if b.fallback and cls.fallback is None:
                cls.fallback = self.ns[self.fn(b.fallback, c)]
        for b in reversed(lin):
            vs = [v for v in b.vars if v['init'] is not None and not v['const']]
            if vs:
                cls.inits.append(self.ns[self.initfn(vs, b, c)])
        for b in lin[:0:-1]:
            if b.ctor:
                args = None
                for d in lin:
                    for n, a in d.bases:
                        if a is not None and n.split('.')[-1] == b.name:
                            args = a
                if args:
                    raise SolError('base constructor arguments are not supported')
                if not b.ctor.ast['params']:
                    cls.inits.append(self.ns[self.fn(b.ctor, c)])
        if c.ctor:
            cls.ctor = (self.ns[self.fn(c.ctor, c)], [self.type(t, c.file, c) for t, _, _ in c.ctor.ast['params']])
        return cls

    def getter(self, cls, c, b, v):
        t = self.type(v['type'], b.file, b)
        g = FnGen(self, b.file, c)
        keys = []
        if v['const']:
            x = g.expr(v['init'])
            code = g.conv(x, t, 'memory')
            loc = 'memory'
        else:
            x = X(str(g.slots[id(v)]), t, 'storage', ('storef', str(g.slots[id(v)])))
            if R.isval(t):
                x = g.stoval(str(g.slots[id(v)]), t)
            while x.t[0] in ('arr', 'map'):
                kt = x.t[1] if x.t[0] == 'map' else U256
                nm = 'k%d' % len(keys)
                keys.append(kt)
                x = g.index(x, X(nm, kt, 'memory' if not R.isval(kt) else None))
            if x.t[0] == 'struct':
                return
            t, code, loc = x.t, x.code, x.loc
        n = self.uniq('get_' + v['name'])
        src = 'def %s(%s):\n    ml=rt.ml\n    return %s\n' % (n, ', '.join(['rt'] + ['k%d' % i for i in range(len(keys))]), code)
        exec(compile(src, n, 'exec'), self.ns)
        sig = v['name'] + '(' + ','.join(R.canon(k) for k in keys) + ')'
        cls.fns.setdefault(R.selector(sig), Entry(sig, self.ns[n], [(k, 'memory') for k in keys], [(t, loc)], 'view'))

    # ---- functions
    def uniq(self, base):
        self.n += 1
        return 'f%d_%s' % (self.n, base)

    def fn(self, fn, c):
        """Compiled name of fn as seen from the deployed contract c."""
        if fn.contract is None or (fn.contract.kind == 'library' and c is not fn.contract):
            c = fn.contract
        key = (id(fn), c.name if c else None)
        if key in self.compiled:
            return self.compiled[key]
        name = self.uniq(fn.name)
        self.compiled[key] = name
        g = FnGen(self, fn.file, c, fn)
        src = g.function(name)
        self.srcs[name] = src
        try:
            exec(compile(src, '<%s>' % name, 'exec'), self.ns)
        except SyntaxError as e:
            raise SolError('%s: generated code for %s: %s\n%s' % (fn.file.path, fn.name, e, src[:4000]))
        return name

    def initfn(self, vs, b, c):
        name = self.uniq('init_' + b.name)
        g = FnGen(self, b.file, c)
        g.ind = 1
        for v in vs:
            t = self.type(v['type'], b.file, b)
            s = str(g.slots[id(v)])
            x = g.expr(v['init'])
            g.emit(g.store(('sto' if R.isval(t) else 'storef', s), t, 'storage', x))
        src = 'def %s(rt):\n    ml=rt.ml; ms=rt.ms\n' % name + '\n'.join(g.out) + '\n'
        exec(compile(src, name, 'exec'), self.ns)
        return name

    def free(self, f, name, n=None):
        """A free function for the harness: (py function, params, rets)."""
        s = self.sym(f, name)
        if s is None or s[0] != 'fns':
            raise SolError('no function %s' % name)
        fs = [x for x in s[1] if n is None or len(x.ast['params']) == n]
        fn = fs[0]
        py = self.fn(fn, None)
        return (self.ns[py], [self.type(t, fn.file) for t, _, _ in fn.ast['params']],
                [(self.type(t, fn.file), l) for t, l, _ in fn.ast['rets']])


ASSIGNOPS = {'+=': '+', '-=': '-', '*=': '*', '/=': '/', '%=': '%', '|=': '|', '&=': '&', '^=': '^',
             '<<=': '<<', '>>=': '>>'}


class FnGen:
    def __init__(self, unit, file, contract=None, fn=None):
        self.u, self.f, self.c, self.fn = unit, file, contract, fn
        # names are looked up from the contract the function is written in
        self.home = fn.contract if fn is not None and fn.contract is not None else contract
        self.out = []
        self.ind = 1
        self.scopes = [{}]
        self.n = 0
        self.unchecked = False
        self.loops = []
        self.dirty = set()
        self.yfuns = []
        self.rets = []

    @property
    def slots(self):
        return self.u.layout(self.c) if self.c is not None else {}

    # ---- output
    def emit(self, s):
        self.out.append('    ' * self.ind + s)

    def tmp(self, base='t'):
        self.n += 1
        return '%s%d' % (base, self.n)

    def err(self, what, line=None):
        raise SolError('%s:%s: %s' % (os.path.relpath(self.f.path, self.u.root), line or '?', what))

    # ---- scopes
    def declare(self, name, t, loc):
        self.n += 1
        py = 'v%d_%s' % (self.n, name.replace('$', '_S_'))
        self.scopes[-1][name] = (py, t, loc)
        return py

    def local(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        return None

    # ---- function
    def function(self, name):
        a = self.fn.ast
        for n in yul_assigned(a['body']):
            self.dirty.add(n)
        ps = []
        for t, loc, nm in a['params']:
            t = self.u.type(t, self.f, self.home)
            ps.append(self.declare(nm or self.tmp('_p'), t, loc))
        self.u.H.append(0)
        self.u.Hname.append((self.fn.contract.name + '.' if self.fn.contract else '') + self.fn.name)
        head = ['def %s(%s):' % (name, ', '.join(['rt'] + ps)),
                '    ml=rt.ml; ms=rt.ms; H[%d]+=1' % (len(self.u.H) - 1)]
        for t, loc, nm in a['rets']:
            t = self.u.type(t, self.f, self.home)
            py = self.declare(nm or self.tmp('_r'), t, loc)
            self.rets.append((py, t, loc, nm))
        for py, t, loc, nm in self.rets:
            self.emit('%s = %s' % (py, self.default(t, loc)))
        mods = a['mods']
        body = a['body']
        real = []
        for n, args in mods:
            m = self.findmod(n)
            if m is not None:
                real.append((m, args))
        if not real:
            self.block(body, False)
            self.ret_named()
        else:
            # body as an inner function returning the values
            inner = self.tmp('body')
            self.emit('def %s():' % inner)
            self.ind += 1
            if self.rets or ps:
                self.emit('nonlocal ' + ', '.join([r[0] for r in self.rets] + ps))
            self.block(body, False)
            self.ret_named()
            self.ind -= 1
            self.wrapmods(real, inner)
            self.ret_named()
        return '\n'.join(head + self.out) + '\n'

    def wrapmods(self, mods, inner):
        if not mods:
            rs = [r[0] for r in self.rets]
            self.emit(('%s = ' % ', '.join(rs) if rs else '') + inner + '()')
            return
        (m, owner), args = mods[0]
        self.scopes.append({})
        for (t, loc, nm), e in zip(m['params'], args):
            x = self.expr(e)
            t = self.u.type(t, owner.file, owner)
            code = self.conv(x, t, loc)
            self.emit('%s = %s' % (self.declare(nm, t, loc), code))
        save = getattr(self, 'placeholder', None)
        self.placeholder = lambda: self.wrapmods(mods[1:], inner)
        self.block(m['body'])
        self.placeholder = save
        self.scopes.pop()

    def findmod(self, n):
        if self.c is None:
            return None
        for b in self.c.lin(self.u):
            if n in b.mods:
                return b.mods[n]
        return None

    def default(self, t, loc):
        if R.isval(t):
            return '0'
        if loc == 'memory':
            if t[0] in ('bytes', 'string') or (t[0] == 'arr' and t[2] is None):
                return '96'
            return 'rt.zero(%r)' % (t,)
        if loc == 'calldata':
            return '(0, 0)'
        return '0'

    def ret_named(self):
        if not self.rets:
            self.emit('return None')
        else:
            self.emit('return ' + ', '.join(r[0] for r in self.rets))

    # ---- statements
    def block(self, b, scope=True):
        if scope:
            self.scopes.append({})
        k = len(self.out)
        for s in b[1]:
            self.stmt(s)
        if len(self.out) == k:
            self.emit('pass')
        if scope:
            self.scopes.pop()

    def endless(self):
        """more turns than any block's gas pays for"""
        self.emit('else:')
        self.emit("    raise OutOfGas(b'', 'out of gas (loop)')")

    def sub(self, s):
        """a statement as an indented body"""
        self.ind += 1
        k = len(self.out)
        if s is not None:
            if s[0] == 'block':
                self.block(s)
            else:
                self.scopes.append({})
                self.stmt(s)
                self.scopes.pop()
        if len(self.out) == k:
            self.emit('pass')
        self.ind -= 1

    def stmt(self, s):
        k = s[0]
        if k == 'block':
            self.block(s)
        elif k == 'unchecked':
            save, self.unchecked = self.unchecked, True
            self.block(s[1])
            self.unchecked = save
        elif k == 'expr':
            self.exprstmt(s[1])
        elif k == 'decl':
            (tast, loc, name), e, line = s[1], s[2], s[3]
            if tast == ('user', 'var') or (tast[0] == 'user' and tast[1] == 'var'):
                self.err('var', line)
            t = self.u.type(tast, self.f, self.home)
            if e is None:
                code = self.default(t, loc)
                if self.maybedirty(name, t):
                    code = '0'
            else:
                code = self.conv(self.expr(e), t, loc, line)
            self.emit('%s = %s' % (self.declare(name, t, loc), code))
        elif k == 'tdecl':
            x = self.expr(s[2])
            tys = self.tupletypes(x)
            if len(tys) != len(s[1]):
                self.err('tuple length', s[3])
            ts = self.untuple(x, tys)
            for d, tx in zip(s[1], ts):
                if d is None:
                    continue
                t = self.u.type(d[0], self.f, self.home)
                code = self.conv(tx, t, d[1], s[3])
                self.emit('%s = %s' % (self.declare(d[2], t, d[1]), code))
        elif k == 'if':
            self.emit('if %s:' % self.cond(s[1]))
            self.sub(s[2])
            if s[3] is not None:
                self.emit('else:')
                self.sub(s[3])
        elif k == 'for':
            self.scopes.append({})
            if s[1] is not None:
                self.stmt(s[1])
            self.emit('for _ in TURNS:')
            if s[2] is not None:
                self.emit('    if not (%s): break' % self.cond(s[2]))
            post = (lambda: self.exprstmt(s[3])) if s[3] is not None else (lambda: None)
            self.loops.append(('for', post))
            self.sub(s[4])
            self.loops.pop()
            self.ind += 1
            post()
            self.ind -= 1
            self.endless()
            self.scopes.pop()
        elif k == 'do':
            self.emit('for _ in TURNS:')
            c = s[1]

            def again():
                self.emit('if not (%s): break' % self.cond(c))
            self.loops.append(('do', again))
            self.sub(s[2])
            self.loops.pop()
            self.ind += 1
            again()
            self.ind -= 1
            self.endless()
        elif k == 'break':
            self.emit('break')
        elif k == 'continue':
            self.loops[-1][1]()
            self.emit('continue')
        elif k == 'return':
            self.ret(s[1], s[2])
        elif k == 'asm':
            Yul(self).block(s[1])
        elif k == 'emit':
            pass
        elif k == 'placeholder':
            self.placeholder()
        elif k == 'revert':
            self.reverterr(s[1], s[2])
        elif k == 'try':
            self.trystmt(s)
        else:
            self.err('statement %s' % k)

    def trystmt(self, s):
        _, e, rets, ok, cats, line = s
        t = self.tmp('t')
        flag = self.tmp('ok')
        self.emit('%s = False' % flag)
        self.emit('try:')
        self.ind += 1
        x = self.expr(e)
        self.emit('%s = %s' % (t, x.code))
        self.emit('%s = True' % flag)
        self.ind -= 1
        ex = self.tmp('ex')
        self.emit('except Revert as %s_:' % ex)
        self.emit('    %s = %s_' % (ex, ex))
        self.emit('if %s:' % flag)
        self.scopes.append({})
        self.ind += 1
        tys = self.tupletypes(x) if rets else []
        for i, (ta, loc, nm) in enumerate(rets):
            tt = self.u.type(ta, self.f, self.home)
            src = X(t if len(rets) == 1 else '%s[%d]' % (t, i), tys[i][0], tys[i][1])
            if nm:
                self.emit('%s = %s' % (self.declare(nm, tt, loc), self.conv(src, tt, loc)))
        self.ind -= 1
        self.sub(ok)
        self.scopes.pop()
        self.emit('else:')
        self.ind += 1
        done = False
        for kind, ps, body in cats:
            if kind == 'Error':
                self.emit('if %s.data[:4] == ERROR:' % ex)
                self.ind += 1
                self.scopes.append({})
                if ps and ps[0][2]:
                    self.emit('%s = rt.bytes_(dec([("string",)], %s.data[4:])[0])' % (self.declare(ps[0][2], STRING, 'memory'), ex))
                self.block(body)
                self.scopes.pop()
                self.ind -= 1
                self.emit('else:')
                self.ind += 1
                done = True
            elif kind is None:
                self.scopes.append({})
                if ps and ps[0][2]:
                    self.emit('%s = rt.bytes_(%s.data)' % (self.declare(ps[0][2], BYTES, 'memory'), ex))
                self.block(body)
                self.scopes.pop()
                done = None
            else:
                self.err('catch %s' % kind, line)
        if done is not None:
            self.emit('raise %s' % ex)
        if done or any(c[0] == 'Error' for c in cats):
            self.ind -= 1
        self.ind -= 1

    def reverterr(self, e, line):
        if e[0] != 'call':
            self.err('revert', line)
        err = self.finderror(e[1])
        if err is None:
            self.err('unknown error', line)
        ast, f, c = err
        ts = [self.u.type(t, f, c) for t, _, _ in ast[2]]
        sig = ast[1] + '(' + ','.join(R.canon(t) for t in ts) + ')'
        items = []
        for t, a in zip(ts, e[2]):
            items.append(self.item(self.expr(a), t))
        self.emit('raise Revert(%r + rt.abienc(%s), %r)' % (R.selector(sig), ', '.join(items), ast[1]))

    def finderror(self, e):
        if e[0] == 'id':
            if self.c is not None:
                for b in self.c.lin(self.u) + ([self.home] if self.home else []):
                    if e[1] in b.errors:
                        return b.errors[e[1]], b.file, b
            s = self.u.sym(self.f, e[1])
            if s and s[0] == 'error':
                return s[1], s[2], s[3]
        if e[0] == 'member' and e[1][0] == 'id':
            s = self.u.sym(self.f, e[1][1])
            if s and s[0] == 'contract' and e[2] in s[1].errors:
                return s[1].errors[e[2]], s[1].file, s[1]
        return None

    def ret(self, e, line):
        if e is None:
            self.ret_named()
            return
        if len(self.rets) == 1:
            py, t, loc, _ = self.rets[0]
            self.emit('return %s' % self.conv(self.expr(e), t, loc, line))
            return
        x = self.expr(e)
        if not self.rets:
            self.emit(x.code)
            self.emit('return None')
            return
        ts = self.untuple(x, self.tupletypes(x))
        if len(ts) != len(self.rets):
            self.err('return tuple', line)
        self.emit('return ' + ', '.join(self.conv(a, r[1], r[2], line) for a, r in zip(ts, self.rets)))

    def tupletypes(self, x):
        if x.kind == 'tuple':
            return [(p.t, p.loc) if p is not None else (None, None) for p in x.ex]
        if x.t and x.t[0] == 'tuple':
            return list(x.t[1])
        return [(x.t, x.loc)]

    def untuple(self, x, tys):
        """evaluate x once; expressions for its components"""
        if x.kind == 'tuple':
            out = []
            for p in x.ex:
                if p is None:
                    out.append(None)
                elif p.t and p.t[0] in ('lit', 'strlit'):
                    out.append(p)
                else:
                    t = self.tmp()
                    self.emit('%s = %s' % (t, p.code))
                    out.append(X(t, p.t, p.loc))
            return out
        t = self.tmp()
        self.emit('%s = %s' % (t, x.code))
        if len(tys) == 1:
            return [X(t, tys[0][0], tys[0][1])]
        return [X('%s[%d]' % (t, i), a, b) for i, (a, b) in enumerate(tys)]

    def exprstmt(self, e):
        while e[0] == 'paren':
            e = e[1]
        if e[0] == 'assign' and e[2][0] == 'tuple':
            x = self.expr(e[3])
            tys = self.tupletypes(x)
            if len(tys) != len(e[2][1]):
                self.err('tuple length', e[4])
            ts = self.untuple(x, tys)
            lhs = [None if p is None else self.expr(p) for p in e[2][1]]
            # addresses first, then stores from the right
            sts = []
            for l, tx in zip(lhs, ts):
                if l is None:
                    continue
                lv = l.lv
                if lv is None:
                    self.err('not assignable', e[4])
                if lv[0] in ('mem', 'memb', 'sto', 'storef'):
                    a = self.tmp('a')
                    self.emit('%s = %s' % (a, lv[1]))
                    lv = (lv[0], a)
                sts.append((lv, l, tx))
            for lv, l, tx in reversed(sts):
                self.emit(self.store(lv, l.t, l.loc, tx))
            return
        if e[0] == 'inc':
            x = self.expr(e[3])
            if x.lv and x.lv[0] == 'local' and x.t[0] == 'uint':
                py = x.lv[1]
                mask = (1 << x.t[1]) - 1
                op = '+' if e[1] == '++' else '-'
                if self.unchecked:
                    self.emit('%s = (%s %s 1) & %d' % (py, x.code, op, mask))
                else:
                    self.emit('%s = chk(%s %s 1, %d)' % (py, x.code, op, mask))
                return
        if e[0] == 'tuple' and not e[1]:
            return
        x = self.expr(e)
        if x.kind == 'tuple':
            for p in x.ex:
                if p is not None:
                    self.emit(p.code)
            return
        if x.kind in ('val',):
            self.emit(x.code)

    def cond(self, e):
        x = self.expr(e)
        if x.t != BOOL:
            self.err('condition is not a bool')
        return x.code

    # ---- stores
    def store(self, lv, t, loc, x, line=None):
        """code that stores x (converted) and yields the stored value"""
        k = lv[0]
        if k == 'local':
            return '%s = %s' % (lv[1], self.conv(x, t, loc, line))
        if k == 'mem':
            return 'rt.msr(%s, %s)' % (self.conv(x, t, 'memory', line), lv[1])
        if k == 'memb':
            return 'rt.msb(%s, %s)' % (self.conv(x, t, None, line), lv[1])
        if k == 'sto':
            return 'rt.ssr(%s, %s)' % (self.conv(x, t, None, line), lv[1])
        if k == 'storef':
            return 'rt.sput(%r, %s, %s)' % (t, lv[1], self.deepcode(x, t, line))
        self.err('not assignable', line)

    def deepcode(self, x, t, line=None):
        """deep Python value of x, of type t"""
        if x.t[0] == 'strlit':
            return repr(x.t[1])
        if x.t[0] == 'arr' and t[0] == 'arr' and x.t != t:
            # array of another element type or kind: element-wise
            return 'rt.deep(%r, %r, %s)' % (x.t, x.loc, x.code)
        if R.isval(t):
            return self.conv(x, t, None, line)
        return 'rt.deep(%r, %r, %s)' % (t, x.loc, self.conv(x, t, x.loc, line))

    def item(self, x, t=None):
        """(type, loc, code) triple for the ABI helpers"""
        if t is None:
            t, x = self.mobile(x)
        loc = None if R.isval(t) else (x.loc if x.t == t and x.loc else 'memory')
        return '(%r, %r, %s)' % (t, loc, self.conv(x, t, loc))

    def mobile(self, x):
        t = x.t
        if t[0] == 'lit':
            return mobile(t[1]), x
        if t[0] == 'strlit':
            return STRING, x
        return t, x

    # ---- conversions
    def conv(self, x, t, loc, line=None):
        """implicit conversion: code of x as a t (in loc for references)"""
        if x.kind == 'tuple' and len(x.ex) == 1:
            x = x.ex[0]
        s = x.t
        if s is None:
            self.err('value expected', line)
        if s[0] == 'lit':
            v = s[1]
            if t[0] in ('uint', 'int', 'enum'):
                if not fits(v, t):
                    self.err('literal %d does not fit %r' % (v, t), line)
                return str(v & M)
            if t[0] == 'fb':
                if s[2] == 2 * t[1] or v == 0:
                    return str((v << (256 - 8 * t[1])) & M)
                self.err('literal to bytes%d' % t[1], line)
            if t[0] == 'addr' and s[2] == 40:
                return str(v)
            self.err('literal to %r' % (t,), line)
        if s[0] == 'strlit':
            if t[0] == 'fb':
                if len(s[1]) > t[1]:
                    self.err('string literal too long', line)
                return str(int.from_bytes(s[1].ljust(32, b'\0'), 'big'))
            if t[0] in ('bytes', 'string'):
                return 'rt.bytes_(%r)' % s[1]
            self.err('string literal to %r' % (t,), line)
        if s == t:
            if R.isval(t) or x.loc == loc or loc is None:
                return x.code
            if loc == 'memory':
                return 'rt.tomem(%r, %r, %s)' % (t, x.loc, x.code)
            if loc == 'storage' and x.loc == 'storage':
                return x.code
            self.err('conversion from %s to %s' % (x.loc, loc), line)
        if s[0] == t[0] == 'uint' and s[1] <= t[1]:
            return x.code
        if s[0] == t[0] == 'int' and s[1] <= t[1]:
            return x.code
        if s[0] == 'uint' and t[0] == 'int' and s[1] < t[1]:
            return x.code
        if s[0] == t[0] == 'fb' and s[1] <= t[1]:
            return x.code
        if s[0] == 'contract' and t[0] == 'contract':
            return x.code
        if s[0] == 'arr' and t[0] == 'arr' and s[1] == t[1] and s[2] == t[2]:
            return x.code
        if s[0] == 'arr' and t[0] == 'arr' and x.loc == 'storage' and loc == 'memory' and t[2] is None:
            return 'rt.put(%r, rt.deep(%r, "storage", %s))' % (t, s, x.code)
        self.err('no conversion from %r to %r' % (s, t), line)

    def convertible(self, x, t, loc):
        """0 exact, 1 convertible, None not"""
        s = x.t
        if s is None:
            return None
        if s == t:
            return 0
        try:
            self.conv(x, t, 'memory' if not R.isval(t) else None)
            return 1
        except SolError:
            return None

    def explicit(self, x, t, line=None):
        s = x.t
        if s[0] == 'lit':
            v = s[1]
            if t[0] in ('uint', 'int'):
                return X(str(R.clean(t, v & M)), t)
            if t[0] == 'addr':
                return X(str(v & ((1 << 160) - 1)), t)
            if t[0] == 'fb':
                return X(str((v << (256 - 8 * t[1])) & M), t)
            if t[0] == 'contract':
                return X(str(v), t)
            if t[0] == 'enum':
                return X(str(v), t)
        if s[0] == 'strlit':
            if t[0] == 'fb':
                return X(str(int.from_bytes(s[1][:t[1]].ljust(32, b'\0'), 'big')), t)
            return X('rt.bytes_(%r)' % s[1], t, 'memory')
        if s == t:
            return X(x.code, t, x.loc, x.lv if t[0] == 'contract' else None)
        a, b = s[0], t[0]
        if a in ('uint', 'int', 'enum') and b in ('uint', 'int'):
            if a == 'uint' and s[1] <= t[1]:
                if b == 'uint' or s[1] < t[1]:
                    return X(x.code, t)
            if b == 'uint':
                return X('(%s & %d)' % (x.code, (1 << t[1]) - 1), t)
            return X('clean(%r, %s)' % (t, x.code), t)
        if a == 'bool' and b == 'bool':
            return x
        if a == 'uint' and b == 'fb':
            return X('((%s << %d) & %d)' % (x.code, 256 - s[1], R.clean(t, M)), t)
        if a == 'fb' and b == 'uint':
            return X('((%s >> %d) & %d)' % (x.code, 256 - 8 * s[1], (1 << t[1]) - 1), t)
        if a == 'fb' and b == 'fb':
            return X('(%s & %d)' % (x.code, R.clean(t, M)), t)
        if a == 'fb' and b in ('addr', 'contract'):
            return X('(%s >> 96)' % x.code, t)
        if a in ('addr', 'contract') and b == 'fb':
            return X('(%s << 96)' % x.code, t)
        if a in ('addr', 'contract') and b in ('addr', 'contract'):
            return X(x.code, t)
        if a == 'uint' and b in ('addr', 'contract'):
            return X('(%s & %d)' % (x.code, (1 << 160) - 1), t)
        if a in ('addr', 'contract') and b == 'uint':
            return X('(%s & %d)' % (x.code, (1 << t[1]) - 1), t)
        if a in ('bytes', 'string') and b in ('bytes', 'string'):
            return X(x.code, t, x.loc, x.lv)
        if a == 'bytes' and b == 'fb':
            return X('frm(rt.deep(("bytes",), %r, %s)[:%d].ljust(32, b"\\0"), "big")' % (x.loc, x.code, t[1]), t)
        if a == 'uint' and b == 'enum':
            return X('enumc(%s, %d)' % (x.code, t[2]), t)
        return X(self.conv(x, t, x.loc, line), t, x.loc)

    # ---- expressions
    def expr(self, e):
        return getattr(self, 'e_' + e[0])(e)

    def e_paren(self, e):
        return self.expr(e[1])

    def e_lit(self, e):
        return X(str(e[1]), ('lit', e[1], e[2]))

    def e_str(self, e):
        return X(repr(e[1]), ('strlit', e[1]))

    def e_bool(self, e):
        return X('True' if e[1] else 'False', BOOL)

    def e_tuple(self, e):
        return X('', None, kind='tuple', ex=[None if p is None else self.expr(p) for p in e[1]])

    def e_elemtype(self, e):
        if e[1] == 'payable':
            return X('', ADDR, kind='type')
        return X('', self.u.type(('elem', e[1]), self.f, self.home), kind='type')

    def e_typeof(self, e):
        return X('', self.u.type(e[1], self.f, self.home), kind='meta')

    def e_new(self, e):
        return X('', self.u.type(e[1], self.f, self.home), kind='new')

    def e_arrlit(self, e):
        xs = [self.expr(p) for p in e[1]]
        t = None
        for x in xs:
            xt = mobile(x.t[1]) if x.t[0] == 'lit' else (STRING if x.t[0] == 'strlit' else x.t)
            t = xt if t is None else common(t, xt)
            if t is None:
                self.err('array literal', e[2])
        codes = []
        loc = None if R.isval(t) else 'memory'
        for x in xs:
            codes.append(self.conv(x, t, loc, e[2]))
        return X('rt.lits((%s,))' % ', '.join(codes), ('arr', t, len(xs)), 'memory')

    def e_id(self, e):
        name, line = e[1], e[2]
        l = self.local(name)
        if l:
            py, t, loc = l
            code = py
            if self.maybedirty(name, t):
                code = 'clean(%r, %s)' % (t, py)
                if t[0] == 'uint':
                    code = '(%s & %d)' % (py, (1 << t[1]) - 1)
            return X(code, t, None if R.isval(t) else loc, ('local', py))
        if name == 'this' and self.c is not None:
            return X('rt.this', ('contract', self.c.name))
        if name == 'super':
            return X('', kind='super')
        if self.c is not None:
            # from the most derived contract for functions; the home for the rest
            lin = self.c.lin(self.u)
            if self.home not in lin:
                lin = self.home.lin(self.u)
            for b in lin:
                for v in b.vars:
                    if v['name'] == name:
                        return self.statevar(v, b)
            fs = []
            sigs = set()
            for b in lin:
                for fn in b.fns:
                    if fn.name == name:
                        sg = self.u.sig(fn)
                        if sg not in sigs:
                            sigs.add(sg)
                            fs.append(fn)
            if fs:
                return X('', kind='fns', ex=fs)
            for b in lin:
                if name in b.structs:
                    return X('', self.u.structtype(b.structs[name], b.file, b), kind='type')
                if name in b.enums:
                    return X('', ('enum', name, len(b.enums[name][2])), kind='type', ex=b.enums[name])
        s = self.u.sym(self.f, name)
        if s is not None and s[0] == 'contract' and name in ('console', 'console2'):
            return X('', kind='builtin', ex='console')
        if s is not None:
            if s[0] == 'const':
                return self.const(s[1], s[2], None)
            if s[0] == 'fns':
                return X('', kind='fns', ex=s[1])
            if s[0] == 'struct':
                return X('', self.u.structtype(s[1], s[2], s[3]), kind='type')
            if s[0] == 'enum':
                return X('', ('enum', name, len(s[1][2])), kind='type', ex=s[1])
            if s[0] == 'contract':
                return X('', ('contract', s[1].name), kind='type', ex=s[1])
            if s[0] == 'module':
                return X('', kind='module', ex=s[1])
            if s[0] == 'error':
                return X('', kind='error', ex=(s[1], s[2], s[3]))
        if name in ('abi', 'msg', 'block', 'tx', 'console', 'bytes', 'string') or name in BUILTIN:
            return X('', kind='builtin', ex=name)
        self.err('unknown name %s' % name, line)

    def maybedirty(self, name, t):
        return name in self.dirty and R.isval(t) and t not in (U256, ('int', 256), ('fb', 32))

    def const(self, v, f, c):
        g = FnGen(self.u, f, c)
        g.home = c
        t = self.u.type(v['type'], f, c)
        x = g.expr(v['init'])
        code = g.conv(x, t, 'memory' if not R.isval(t) else None)
        if R.isval(t):
            if 'rt' not in code:
                code = str(int(eval(code, dict(self.u.ns))))
            return X(code, t, ex='const')
        return X(code, t, 'memory')

    def statevar(self, v, b):
        if v['const']:
            return self.const(v, b.file, b)
        t = self.u.type(v['type'], b.file, b)
        if id(v) not in self.slots:
            self.err('state variable %s out of reach' % v['name'])
        s = str(self.slots[id(v)])
        if R.isval(t):
            return self.stoval(s, t)
        return X(s, t, 'storage', ('storef', s))

    def stoval(self, slot, t):
        return X('rt.sl(%s)' % slot, t, None, ('sto', slot))

    def e_un(self, e):
        op, line = e[1], e[3]
        x = self.expr(e[2])
        if op == '!':
            return X('(not %s)' % x.code, BOOL)
        if x.t[0] == 'lit':
            v = {'-': -x.t[1], '+': x.t[1], '~': ~x.t[1]}[op]
            return X(str(v), ('lit', v, None))
        t = x.t
        if op == '~':
            if t[0] in ('uint', 'fb'):
                return X('(%s ^ %d)' % (x.code, R.clean(t, M)), t)
            return X('(%s ^ %d)' % (x.code, M), t)
        if op == '-' and t[0] == 'int':
            if self.unchecked:
                return X('clean(%r, -%s)' % (t, x.code), t)
            return X('chks(-sg(%s), %d)' % (x.code, t[1]), t)
        self.err('unary %s' % op, line)

    def e_inc(self, e):
        op, pre, line = e[1], e[2], e[4]
        one = ('bin', '+' if op == '++' else '-', e[3], ('lit', 1, None), line)
        if pre:
            return self.e_assign(('assign', '=', e[3], one, line))
        x = self.expr(e[3])
        old = self.tmp('o')
        st = self.e_assign(('assign', '=', e[3], one, line))
        return X('(%s := %s, %s)[0]' % (old, x.code, st.code), x.t)

    def e_delete(self, e):
        x = self.expr(e[1])
        if x.lv is None:
            self.err('delete')
        if x.lv[0] == 'storef':
            return X('rt.sput(%r, %s, %r)' % (x.t, x.lv[1], R.zerodeep(x.t)), None)
        z = X('0' if R.isval(x.t) else self.default(x.t, 'memory'), x.t, x.loc)
        return X(self.wal(self.store(x.lv, x.t, x.loc, z)), x.t)

    @staticmethod
    def wal(s):
        """statement form 'v = e' -> walrus expression"""
        n, eq, rest = s.partition(' = ')
        if eq and n.isidentifier():
            return '(%s := %s)' % (n, rest)
        return s

    def e_assign(self, e):
        op, line = e[1], e[4]
        if e[2][0] == 'tuple':
            self.err('tuple assignment inside an expression', line)
        l = self.expr(e[2])
        if l.lv is None:
            self.err('not assignable', line)
        if op == '=':
            r = self.expr(e[3])
            return X(self.wal(self.store(l.lv, l.t, l.loc, r, line)), l.t, l.loc)
        bop = ASSIGNOPS[op]
        r = self.expr(e[3])
        if l.lv[0] == 'local':
            v = self.binop(bop, l, r, line)
            return X(self.wal(self.store(l.lv, l.t, l.loc, self.narrow(v, l.t), line)), l.t, l.loc)
        # rhs first, then the place, once
        rv, a = self.tmp('r'), self.tmp('a')
        pre = []
        if r.t[0] not in ('lit', 'strlit'):
            pre.append('%s := %s' % (rv, r.code))
            r = X(rv, r.t, r.loc)
        pre.append('%s := %s' % (a, l.lv[1]))
        if l.lv[0] == 'mem':
            cur = X(self.cleanread('ml(%s)' % a, l.t), l.t)
        elif l.lv[0] == 'memb':
            cur = X('(rt.m[%s] << 248)' % a, l.t)
        elif l.lv[0] == 'sto':
            cur = X('rt.sl(%s)' % a, l.t)
        else:
            self.err('compound assignment', line)
        v = self.binop(bop, cur, r, line)
        st = self.store((l.lv[0], a), l.t, l.loc, self.narrow(v, l.t), line)
        return X('(%s, %s)[-1]' % (', '.join('(%s)' % p for p in pre), st), l.t)

    def narrow(self, v, t):
        return v

    def cleanread(self, code, t):
        if t[0] == 'uint' and t[1] < 256:
            return '(%s & %d)' % (code, (1 << t[1]) - 1)
        if t in (U256, ('int', 256), ('fb', 32)):
            return code
        return 'clean(%r, %s)' % (t, code)

    def e_tern(self, e):
        c = self.cond(e[1])
        a, b = self.expr(e[2]), self.expr(e[3])
        ta = mobile(a.t[1]) if a.t[0] == 'lit' else (STRING if a.t[0] == 'strlit' else a.t)
        tb = mobile(b.t[1]) if b.t[0] == 'lit' else (STRING if b.t[0] == 'strlit' else b.t)
        t = common(ta, tb)
        if t is None:
            self.err('ternary types')
        if R.isval(t):
            return X('(%s if %s else %s)' % (self.conv(a, t, None), c, self.conv(b, t, None)), t)
        loc = a.loc if a.loc == b.loc and a.loc else 'memory'
        return X('(%s if %s else %s)' % (self.conv(a, t, loc), c, self.conv(b, t, loc)), t, loc)

    def e_bin(self, e):
        op, line = e[1], e[4]
        if op in ('&&', '||'):
            return X('(%s %s %s)' % (self.cond(e[2]), 'and' if op == '&&' else 'or', self.cond(e[3])), BOOL)
        return self.binop(op, self.expr(e[2]), self.expr(e[3]), line)

    def binop(self, op, a, b, line):
        if a.t is None or b.t is None:
            self.err('operand', line)
        if a.t[0] == 'lit' and b.t[0] == 'lit':
            return self.fold(op, a.t[1], b.t[1], line)
        if op in ('<<', '>>'):
            t = a.t
            if t[0] == 'lit':
                t = U256 if t[1] >= 0 else ('int', 256)
                a = X(str(a.t[1] & M), t)
            sh = b.code if b.t[0] != 'lit' else str(b.t[1])
            const = b.t[1] if b.t[0] == 'lit' else None
            if t[0] == 'uint':
                mask = (1 << t[1]) - 1
                if op == '<<':
                    if const is not None and const < 256:
                        return X('((%s << %d) & %d)' % (a.code, const, mask), t)
                    return X('shlm(%s, %s, %d)' % (a.code, sh, mask), t)
                if const is not None and const < 256:
                    return X('(%s >> %d)' % (a.code, const), t)
                return X('shrm(%s, %s)' % (a.code, sh), t)
            if t[0] == 'fb':
                if op == '<<':
                    return X('shlfb(%s, %s)' % (a.code, sh), t)
                return X('(shrm(%s, %s) & %d)' % (a.code, sh, R.clean(t, M)), t)
            if op == '<<':
                return X('clean(%r, shlm(%s, %s, %d))' % (t, a.code, sh, M), t)
            return X('sarm(%s, %s)' % (a.code, sh), t)
        if op == '**':
            t = a.t
            if t[0] == 'lit':
                t = U256 if a.t[1] >= 0 else ('int', 256)
                a = X(str(a.t[1] & M), t)
            bc = b.code
            mask = (1 << t[1]) - 1
            if t[0] != 'uint':
                self.err('** on %r' % (t,), line)
            if self.unchecked:
                return X('pow(%s, %s, %d)' % (a.code, bc, mask + 1), t)
            return X('powc(%s, %s, %d)' % (a.code, bc, mask), t)
        t = common(a.t, b.t)
        if t is None:
            self.err('no common type for %r %s %r' % (a.t, op, b.t), line)
        ac, bc = self.conv(a, t, None, line), self.conv(b, t, None, line)
        if op in ('==', '!='):
            return X('(%s %s %s)' % (ac, op, bc), BOOL)
        if op in ('<', '>', '<=', '>='):
            if t[0] == 'int':
                return X('(sg(%s) %s sg(%s))' % (ac, op, bc), BOOL)
            return X('(%s %s %s)' % (ac, op, bc), BOOL)
        if op in ('&', '|', '^'):
            return X('(%s %s %s)' % (ac, op, bc), t)
        if t[0] == 'uint':
            mask = (1 << t[1]) - 1
            if op in ('+', '-', '*'):
                if self.unchecked:
                    return X('((%s %s %s) & %d)' % (ac, op, bc, mask), t)
                return X('chk(%s %s %s, %d)' % (ac, op, bc, mask), t)
            if op == '/':
                return X('dvc(%s, %s)' % (ac, bc), t)
            if op == '%':
                return X('mdc(%s, %s)' % (ac, bc), t)
        if t[0] == 'int':
            if op in ('+', '-', '*'):
                if self.unchecked:
                    return X('clean(%r, sg(%s) %s sg(%s))' % (t, ac, op, bc), t)
                return X('chks(sg(%s) %s sg(%s), %d)' % (ac, op, bc, t[1]), t)
            if op == '/':
                return X('sdc(%s, %s, %d)' % (ac, bc, t[1]), t)
            if op == '%':
                return X('smc(%s, %s)' % (ac, bc), t)
        self.err('operator %s on %r' % (op, t), line)

    def fold(self, op, a, b, line):
        if op in ('==', '!=', '<', '>', '<=', '>='):
            v = eval('%d %s %d' % (a, op, b))
            return X(str(v), BOOL)
        if op == '/':
            if b == 0 or a % b:
                self.err('fractional constant', line)
            v = a // b
        elif op == '%':
            v = abs(a) % abs(b) * (1 if a >= 0 else -1)
        else:
            v = {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '**': lambda: a ** b,
                 '<<': lambda: a << b, '>>': lambda: a >> b, '&': lambda: a & b, '|': lambda: a | b,
                 '^': lambda: a ^ b}[op]()
        return X(str(v), ('lit', v, None))

    # ---- index, member
    def e_index(self, e):
        b = self.expr(e[1])
        if b.kind == 'type':
            n = None
            if e[2] is not None:
                n = self.u.constval(e[2], self.f, self.home)
            return X('', ('arr', b.t, n), kind='type')
        return self.index(b, self.expr(e[2]), e[3])

    def index(self, b, i, line=None):
        t = b.t
        if t[0] == 'map':
            kt = t[1]
            if kt[0] in ('bytes', 'string'):
                key = self.deepcode(i, kt, line)
            else:
                key = self.conv(i, kt, None, line)
            s = 'rt.smap(%s, %s)' % (b.code, key)
            return self.stoval(s, t[2]) if R.isval(t[2]) else X(s, t[2], 'storage', ('storef', s))
        ic = self.conv(i, U256, None, line)
        if t[0] == 'fb':
            return X('fbix(%s, %s, %d)' % (b.code, ic, t[1]), ('fb', 1))
        if b.loc == 'memory':
            if t[0] in ('bytes', 'string'):
                a = 'rt.ixb(%s, %s)' % (b.code, ic)
                return X('(rt.m[%s] << 248)' % a, ('fb', 1), None, ('memb', a))
            if t[2] is None:
                a = 'rt.ixd(%s, %s)' % (b.code, ic)
            elif i.t[0] == 'lit':
                if i.t[1] >= t[2]:
                    self.err('index out of bounds', line)
                a = '(%s + %d)' % (b.code, 32 * i.t[1])
            else:
                a = 'rt.ixs(%s, %s, %d)' % (b.code, ic, t[2])
            return self.memval(a, t[1])
        if b.loc == 'calldata':
            if t[0] in ('bytes', 'string'):
                return X('rt.cix(%r, %s, %s)' % (t, b.code, ic), ('fb', 1))
            if not R.isval(t[1]):
                return X('rt.put(%r, rt.cix(%r, %s, %s))' % (t[1], t, b.code, ic), t[1], 'memory')
            return X('rt.cix(%r, %s, %s)' % (t, b.code, ic), t[1])
        if b.loc == 'storage':
            if t[0] in ('bytes', 'string'):
                return X('sbix(rt.sto.get(%s, b""), %s)' % (b.code, ic), ('fb', 1))
            s = 'rt.six(%s, %s, %r, %d)' % (b.code, ic, t[2], R.slots(t[1]))
            return self.stoval(s, t[1]) if R.isval(t[1]) else X(s, t[1], 'storage', ('storef', s))
        self.err('index on %r' % (t,), line)

    def memval(self, a, t):
        if R.isval(t):
            return X(self.cleanread('ml(%s)' % a, t), t, None, ('mem', a))
        return X('ml(%s)' % a, t, 'memory', ('mem', a))

    def e_slice(self, e):
        b = self.expr(e[1])
        if b.loc != 'calldata' or b.t[0] not in ('bytes', 'string'):
            self.err('slice', e[4])
        lo = '0' if e[2] is None else self.conv(self.expr(e[2]), U256, None)
        hi = 'None' if e[3] is None else self.conv(self.expr(e[3]), U256, None)
        return X('rt.cslice(%s, %s, %s)' % (b.code, lo, hi), b.t, 'calldata')

    def e_member(self, e):
        n, line = e[2], e[3]
        b = self.expr(e[1])
        k = b.kind
        if k == 'builtin':
            if b.ex == 'msg':
                if n == 'sender':
                    return X('rt.sender', ADDR)
                if n == 'value':
                    return X('rt.value', U256)
                if n == 'data':
                    return X('(0, len(rt.data))', BYTES, 'calldata')
                if n == 'sig':
                    return X('(frm(rt.data[:4].ljust(4, b"\\0"), "big") << 224)', ('fb', 4))
            if b.ex == 'block':
                return X('rt.blk(%r)' % n, ADDR if n == 'coinbase' else U256)
            if b.ex == 'tx':
                return X('0', ADDR if n == 'origin' else U256)
            return X('', kind='bmember', ex=(b.ex, n))
        if k == 'meta':
            t = b.t
            if n in ('max', 'min') and t[0] in ('uint', 'int'):
                if t[0] == 'uint':
                    v = (1 << t[1]) - 1 if n == 'max' else 0
                else:
                    v = (1 << (t[1] - 1)) - 1 if n == 'max' else (-(1 << (t[1] - 1))) & M
                return X(str(v), t)
            if n == 'interfaceId':
                c = self.u.findcontract(t[1])
                v = 0
                for fn in c.fns:
                    v ^= int.from_bytes(R.selector(self.u.sig(fn)), 'big')
                return X(str(v << 224), ('fb', 4))
            if n == 'name':
                return X(repr(t[1].encode()), ('strlit', t[1].encode()))
            self.err('type(...).%s' % n, line)
        if k == 'type':
            if b.t[0] == 'enum' and b.ex:
                return X(str(b.ex[2].index(n)), b.t)
            if b.t[0] == 'contract':
                c = b.ex
                fs = [fn for bb in c.lin(self.u) for fn in bb.fns if fn.name == n]
                if fs:
                    return X('', kind='fns', ex=fs if c.kind == 'library' else fs[:1] if len(fs) == 1 else fs)
                for v in c.vars:
                    if v['name'] == n and v['const']:
                        return self.const(v, c.file, c)
                if n in c.structs:
                    return X('', self.u.structtype(c.structs[n], c.file, c), kind='type')
                if n in c.enums:
                    return X('', ('enum', n, len(c.enums[n][2])), kind='type', ex=c.enums[n])
                if n in c.errors:
                    return X('', kind='error', ex=(c.errors[n], c.file, c))
            if b.t[0] in ('bytes', 'string') and n == 'concat':
                return X('', kind='bmember', ex=('bytes', 'concat', b.t))
            self.err('no member %s' % n, line)
        if k == 'module':
            s = self.u.sym(b.ex, n)
            if s is None:
                self.err('no %s in module' % n, line)
            if s[0] == 'fns':
                return X('', kind='fns', ex=s[1])
            if s[0] == 'const':
                return self.const(s[1], s[2], None)
            if s[0] == 'contract':
                return X('', ('contract', s[1].name), kind='type', ex=s[1])
            if s[0] == 'struct':
                return X('', self.u.structtype(s[1], s[2], s[3]), kind='type')
            self.err('module member', line)
        if k == 'super':
            lin = self.c.lin(self.u)
            i = lin.index(self.home)
            fs = []
            for bb in lin[i + 1:]:
                fs += [fn for fn in bb.fns if fn.name == n and fn.ast['body'] is not None]
                if fs:
                    break
            return X('', kind='fns', ex=fs)
        if k == 'fns':
            if n == 'selector':
                fs = b.ex
                sigs = {self.u.sig(fn) for fn in fs}
                if len(sigs) != 1:
                    self.err('ambiguous selector', line)
                return X(str(int.from_bytes(R.selector(sigs.pop()), 'big') << 224), ('fb', 4))
        if k == 'xfn' and n == 'selector':
            sigs = {s for s, _ in b.ex[1]}
            if len(sigs) != 1:
                self.err('ambiguous selector', line)
            return X(str(int.from_bytes(R.selector(sigs.pop()), 'big') << 224), ('fb', 4))
        if k == 'error' and n == 'selector':
            ast, f, c = b.ex
            sig = ast[1] + '(' + ','.join(R.canon(self.u.type(t, f, c)) for t, _, _ in ast[2]) + ')'
            return X(str(int.from_bytes(R.selector(sig), 'big') << 224), ('fb', 4))
        if k == 'bmember' or k == 'new' or b.t is None:
            self.err('member %s' % n, line)
        t = b.t
        if n == 'length':
            if t[0] == 'fb':
                return X(str(t[1]), ('uint', 8))
            if t[0] == 'arr' and t[2] is not None:
                return X(str(t[2]), U256)
            if b.loc == 'memory':
                return X('ml(%s)' % b.code, U256)
            if b.loc == 'calldata':
                return X('%s[1]' % b.code, U256)
            if b.loc == 'storage':
                if t[0] in ('bytes', 'string'):
                    return X('len(rt.sto.get(%s, b""))' % b.code, U256)
                return X('rt.sl(%s)' % b.code, U256)
            if t[0] == 'strlit':
                return X(str(len(t[1])), U256)
        if t[0] == 'struct':
            for i, (m, mt) in enumerate(t[2]):
                if m == n:
                    if b.loc == 'memory':
                        return self.memval('(%s + %d)' % (b.code, 32 * i) if i else b.code, mt)
                    if b.loc == 'storage':
                        off = sum(R.slots(x) for _, x in t[2][:i])
                        s = '(%s + %d)' % (b.code, off)
                        return self.stoval(s, mt) if R.isval(mt) else X(s, mt, 'storage', ('storef', s))
                    if b.loc == 'calldata':
                        d = 'rt.deep(%r, "calldata", %s)[%d]' % (t, b.code, i)
                        if R.isval(mt):
                            return X(d, mt)
                        return X('rt.put(%r, %s)' % (mt, d), mt, 'memory')
        if t[0] == 'contract':
            c = self.u.findcontract(t[1])
            fs = []
            seen = set()
            for bb in c.lin(self.u):
                for fn in bb.fns:
                    if fn.name == n and fn.ast['vis'] in ('public', 'external', None):
                        sg = self.u.sig(fn)
                        if sg not in seen:
                            seen.add(sg)
                            fs.append((sg, fn))
                for v in bb.vars:
                    if v['name'] == n and v['vis'] == 'public':
                        fs.append((None, v, bb))
            if fs:
                if len(fs[0]) == 3:
                    return X('', kind='xget', ex=(b, fs[0][1], fs[0][2]))
                return X('', kind='xfn', ex=(b, fs))
        if t[0] in ('addr', 'contract'):
            if n == 'balance':
                return X('0', U256)
            if n == 'code':
                return X('rt.bytes_(rt.code(%s))' % b.code, BYTES, 'memory')
            if n == 'codehash':
                return X('kint(rt.code(%s))' % b.code, ('fb', 32))
            if n in ('call', 'staticcall', 'delegatecall'):
                return X('', kind='lowcall', ex=(b, n))
            if n in ('transfer', 'send'):
                self.err('ether transfer', line)
        if n in ('push', 'pop') and b.loc == 'storage':
            return X('', kind='sarr', ex=(b, n))
        # using for
        for us in self.usings():
            _, lib, ty = us[0]
            if ty is not None and self.u.type(ty, us[1], us[2]) != t:
                continue
            if lib[0] == 'lib':
                s = self.u.sym(us[1], lib[1])
                if s and s[0] == 'contract':
                    fs = [fn for fn in s[1].fns if fn.name == n]
                    if fs:
                        return X('', kind='bound', ex=(b, fs))
            else:
                for p in lib[1]:
                    if p.split('.')[-1] == n:
                        if '.' in p:
                            a, m = p.split('.', 1)
                            s = self.u.sym(us[1], a)
                            fs = [fn for fn in s[1].fns if fn.name == m]
                        else:
                            fs = self.u.sym(us[1], p)[1]
                        return X('', kind='bound', ex=(b, fs))
        self.err('no member %s on %r' % (n, t), line)

    def usings(self):
        out = [(x, self.f, None) for x in self.f.usings]
        if self.home is not None:
            out += [(x, self.home.file, self.home) for x in self.home.usings]
        return out

    # ---- calls
    def e_call(self, e):
        callee, args, opts, line = e[1], e[2], e[3], e[4]
        f = self.expr(callee)
        k = f.kind
        if isinstance(args, dict):
            args = self.namedargs(f, args, line)
        if k == 'type':
            if f.t[0] == 'struct':
                xs = [self.expr(a) for a in args]
                p = self.tmp('s')
                parts = ['(%s := rt.al(%d))' % (p, 32 * len(f.t[2]))]
                vals = ['(%s,)' % ', '.join(self.conv(x, mt, 'memory', line) for x, (_, mt) in zip(xs, f.t[2]))]
                return X('rt.structput(%s)' % vals[0], f.t, 'memory')
            if len(args) != 1:
                self.err('conversion takes one argument', line)
            return self.explicit(self.expr(args[0]), f.t, line)
        if k == 'tuple' and len(f.ex) == 1 and f.ex[0].kind == 'type':
            return self.explicit(self.expr(args[0]), f.ex[0].t, line)
        if k == 'new':
            t = f.t
            if t[0] == 'contract':
                c = self.u.findcontract(t[1])
                ps = [self.u.type(p[0], c.file, c) for p in c.ctor.ast['params']] if c.ctor else []
                items = [self.item(self.expr(a), p) for a, p in zip(args, ps)]
                salt = ', ' + self.conv(self.expr(opts['salt']), ('fb', 32), None) if opts and 'salt' in opts else ''
                return X('rt.newc(%r, [%s]%s)' % (c.name, ', '.join(items), salt), t)
            return X('rt.newarr(%r, %s)' % (t, self.conv(self.expr(args[0]), U256, None, line)), t, 'memory')
        if k == 'builtin':
            return self.builtin(f.ex, args, line)
        if k == 'bmember':
            return self.bmember(f.ex, args, line)
        if k == 'fns':
            return self.callfn(f.ex, [self.expr(a) for a in args], line)
        if k == 'bound':
            return self.callfn(f.ex[1], [f.ex[0]] + [self.expr(a) for a in args], line)
        if k == 'xfn':
            return self.xcall(f, [self.expr(a) for a in args], opts, line)
        if k == 'xget':
            b, v, bb = f.ex
            t = self.u.type(v['type'], bb.file, bb)
            keys = []
            for a in args:
                kt = t[1] if t[0] == 'map' else U256
                t = t[2] if t[0] == 'map' else t[1]
                keys.append((kt, self.expr(a)))
            sig = v['name'] + '(' + ','.join(R.canon(kt) for kt, _ in keys) + ')'
            items = [self.item(x, kt) for kt, x in keys]
            return X('rt.xcall(%s, %r, (%s), (%r,), True)' % (b.code, R.selector(sig), ''.join(i + ', ' for i in items), t), t,
                     None if R.isval(t) else 'memory')
        if k == 'lowcall':
            b, n = f.ex
            x = self.expr(args[0])
            d = 'rt.deep(("bytes",), %r, %s)' % (x.loc or 'memory', self.conv(x, BYTES, x.loc or 'memory', line))
            val = self.conv(self.expr(opts['value']), U256, None) if 'value' in opts else '0'
            return X('rt.lowcall(%s, %s, %r, %s)' % (b.code, d, n, val), ('tuple', ((BOOL, None), (BYTES, 'memory'))))
        if k == 'sarr':
            b, n = f.ex
            if n == 'pop':
                return X('rt.spop(%r, %s)' % (b.t, b.code), None)
            d = 'None' if not args else self.deepcode(self.expr(args[0]), b.t[1], line)
            return X('rt.spush(%r, %s, %s)' % (b.t, b.code, d), None)
        self.err('call of %s' % k, line)

    def namedargs(self, f, args, line):
        if f.kind == 'type' and f.t[0] == 'struct':
            return [args[n] for n, _ in f.t[2]]
        if f.kind == 'fns':
            for fn in f.ex:
                names = [p[2] for p in fn.ast['params']]
                if set(names) == set(args):
                    return [args[n] for n in names]
        if f.kind == 'xfn':
            for _, fn in f.ex[1]:
                names = [p[2] for p in fn.ast['params']]
                if set(names) == set(args):
                    return [args[n] for n in names]
        self.err('named arguments', line)

    def pick(self, fns, xs, line):
        best, score = None, None
        for fn in fns:
            ps = fn.ast['params']
            if len(ps) != len(xs):
                continue
            tot = 0
            for (t, loc, _), x in zip(ps, xs):
                c = self.convertible(x, self.u.type(t, fn.file, fn.contract), loc)
                if c is None:
                    tot = None
                    break
                tot += c
            if tot is None:
                continue
            if score is None or tot < score:
                best, score = fn, tot
        if best is None:
            self.err('no overload of %s fits' % (fns[0].name if fns else '?'), line)
        return best

    def retx(self, code, rets):
        if not rets:
            return X(code, None)
        if len(rets) == 1:
            t, loc = rets[0]
            return X(code, t, None if R.isval(t) else loc)
        return X(code, ('tuple', tuple((t, None if R.isval(t) else l) for t, l in rets)))

    def callfn(self, fns, xs, line):
        fn = fns[0] if len(fns) == 1 and len(fns[0].ast['params']) == len(xs) else self.pick(fns, xs, line)
        if fn.ast['body'] is None:
            self.err('%s has no body' % fn.name, line)
        owner = self.c
        py = self.u.fn(fn, owner)
        args = []
        for (t, loc, _), x in zip(fn.ast['params'], xs):
            tt = self.u.type(t, fn.file, fn.contract)
            args.append(self.conv(x, tt, loc if not R.isval(tt) else None, line))
        rets = [(self.u.type(t, fn.file, fn.contract), l) for t, l, _ in fn.ast['rets']]
        return self.retx('%s(%s)' % (py, ', '.join(['rt'] + args)), rets)

    def xcall(self, f, xs, opts, line):
        b, fs = f.ex
        fn = self.pick([fn for _, fn in fs], xs, line)
        ts = [self.u.type(t, fn.file, fn.contract) for t, _, _ in fn.ast['params']]
        rets = [(self.u.type(t, fn.file, fn.contract), None if R.isval(self.u.type(t, fn.file, fn.contract)) else 'memory')
                for t, _, _ in fn.ast['rets']]
        items = [self.item(x, t) for x, t in zip(xs, ts)]
        val = self.conv(self.expr(opts['value']), U256, None) if 'value' in opts else '0'
        code = 'rt.xcall(%s, %r, (%s), (%s), %r, %s)' % (
            b.code, R.selector(self.u.sig(fn)), ''.join(i + ', ' for i in items),
            ''.join('%r, ' % (t,) for t, _ in rets), fn.ast['mut'] in ('view', 'pure'), val)
        return self.retx(code, rets)

    def builtin(self, n, args, line):
        if n in ('require', 'assert'):
            c = self.cond(args[0])
            if n == 'assert':
                return X('(None if %s else panic(1))' % c, None)
            if len(args) == 1:
                return X('(None if %s else fail())' % c, None)
            a = args[1]
            if a[0] == 'call' and self.finderror(a[1]):
                return X('(None if %s else fail())' % c, None)
            m = self.expr(a)
            d = repr(m.t[1]) if m.t[0] == 'strlit' else 'rt.deep(("string",), %r, %s)' % (m.loc, m.code)
            return X('(None if %s else error(%s))' % (c, d), None)
        if n == 'revert':
            if not args:
                return X('fail()', None)
            m = self.expr(args[0])
            d = repr(m.t[1]) if m.t[0] == 'strlit' else 'rt.deep(("string",), %r, %s)' % (m.loc, m.code)
            return X('error(%s)' % d, None)
        xs = [self.expr(a) for a in args]
        if n in ('keccak256', 'sha256'):
            x = xs[0]
            d = repr(x.t[1]) if x.t[0] == 'strlit' else 'rt.deep(("bytes",), %r, %s)' % (x.loc, x.code)
            return X('%s(%s)' % ('kint' if n == 'keccak256' else 'shaint', d), ('fb', 32))
        if n in ('addmod', 'mulmod'):
            return X('%sc(%s)' % (n, ', '.join(self.conv(x, U256, None, line) for x in xs)), U256)
        if n == 'gasleft':
            return X('rt.gas()', U256)
        if n == 'blockhash':
            return X('0', ('fb', 32))
        self.err('builtin %s' % n, line)

    def bmember(self, ex, args, line):
        o, n = ex[0], ex[1]
        if o == 'console':
            xs = [self.expr(a) for a in args]
            codes = [x.code for x in xs if x.t and x.t[0] not in ('lit', 'strlit')]
            return X('(%s)' % ''.join(c + ', ' for c in codes), None)
        if o == 'abi':
            if n == 'decode':
                x = self.expr(args[0])
                d = 'rt.deep(("bytes",), %r, %s)' % (x.loc, x.code)
                te = args[1]
                parts = te[1] if te[0] == 'tuple' else [te[1] if te[0] == 'paren' else te]
                ts = [self.expr(p).t for p in parts]
                return self.retx('rt.abidec(%s, %r)' % (d, ts), [(t, 'memory') for t in ts])
            if n == 'encodeCall':
                self.err('abi.encodeCall', line)
            xs = [self.expr(a) for a in args]
            if n == 'encode':
                return X('rt.bytes_(rt.abienc(%s))' % ', '.join(self.item(x) for x in xs), BYTES, 'memory')
            if n == 'encodePacked':
                its = []
                for x in xs:
                    if x.t[0] == 'lit':
                        self.err('literal in encodePacked', line)
                    its.append(self.item(x, BYTES) if x.t[0] == 'strlit' else self.item(x))
                return X('rt.bytes_(rt.abipack(%s))' % ', '.join(its), BYTES, 'memory')
            if n == 'encodeWithSelector':
                return X('rt.bytes_(word(%s)[:4] + rt.abienc(%s))' % (
                    self.conv(xs[0], ('fb', 4), None), ', '.join(self.item(x) for x in xs[1:])), BYTES, 'memory')
            if n == 'encodeWithSignature':
                return X('rt.bytes_(%r + rt.abienc(%s))' % (
                    R.keccak(xs[0].t[1])[:4], ', '.join(self.item(x) for x in xs[1:])), BYTES, 'memory')
        if o == 'bytes' and n == 'concat':
            xs = [self.expr(a) for a in args]
            return X('rt.bytes_(rt.abipack(%s))' % ', '.join(self.item(x, BYTES if x.t[0] == 'strlit' else None) for x in xs), ex[2], 'memory')
        self.err('%s.%s' % (o, n), line)


BUILTIN = {'require', 'assert', 'revert', 'keccak256', 'sha256', 'addmod', 'mulmod', 'gasleft', 'blockhash'}


def mobile(v):
    if v >= 0:
        b = max(8, (v.bit_length() + 7) // 8 * 8)
        return ('uint', b)
    b = max(8, ((~v).bit_length() + 1 + 7) // 8 * 8)
    return ('int', b)


def fits(v, t):
    if t[0] == 'uint':
        return 0 <= v < 1 << t[1]
    if t[0] == 'int':
        return -(1 << (t[1] - 1)) <= v < 1 << (t[1] - 1)
    return False


def common(a, b):
    if a == b:
        return a
    if a[0] == 'lit' and b[0] == 'lit':
        a = mobile(a[1])
        b = mobile(b[1])
        return common(a, b)
    if b[0] in ('lit', 'strlit'):
        a, b = b, a
    if a[0] == 'lit':
        if b[0] in ('uint', 'int'):
            if fits(a[1], b):
                return b
            m = mobile(a[1])
            return common(m, b)
        if b[0] == 'fb':
            return b
        if b[0] == 'addr':
            return b
        return None
    if a[0] == 'strlit':
        if b[0] == 'fb' and len(a[1]) <= b[1]:
            return b
        if b[0] in ('bytes', 'string'):
            return b
        return None
    if a[0] == b[0] and a[0] in ('uint', 'int', 'fb'):
        return a if a[1] >= b[1] else b
    if {a[0], b[0]} == {'uint', 'int'}:
        u, i = (a, b) if a[0] == 'uint' else (b, a)
        return i if u[1] < i[1] else None
    if {a[0], b[0]} <= {'addr', 'contract'}:
        return ADDR
    return None


def yul_assigned(node, out=None):
    """names assigned in assembly blocks below node"""
    if out is None:
        out = set()
    if isinstance(node, tuple):
        if node and node[0] == 'yassign':
            out.update(node[1])
        for x in node:
            if isinstance(x, (tuple, list)):
                yul_assigned(x, out)
    elif isinstance(node, list):
        for x in node:
            yul_assigned(x, out)
    return out


# ---- Yul ------------------------------------------------------------------

class Yul:
    def __init__(self, g):
        self.g = g
        self.scopes = []
        self.loops = []
        self.infun = None

    def block(self, b, pre=None):
        g = self.g
        self.scopes.append(dict(pre or {}))
        k = len(g.out)
        for s in b[1]:
            if s[0] == 'yfun':
                g.n += 1
                self.scopes[-1][s[1]] = ('fun', 'yf%d_%s' % (g.n, s[1].replace('$', '_S_')), len(s[2]), len(s[3]))
        for s in b[1]:
            if s[0] == 'yfun':
                self.fun(s)
        for s in b[1]:
            self.stmt(s)
        if len(g.out) == k:
            g.emit('pass')
        self.scopes.pop()

    def var(self, n):
        self.g.n += 1
        py = 'y%d_%s' % (self.g.n, n.replace('$', '_S_').replace('.', '_'))
        self.scopes[-1][n] = ('var', py)
        return py

    def look(self, n):
        for s in reversed(self.scopes):
            if n in s:
                return s[n]
        return None

    def fun(self, s):
        g = self.g
        _, n, ps, rs, body, line = s
        py = self.look(n)[1]
        save, saveloops, savefun = self.scopes, self.loops, self.infun
        # only functions are visible inside
        self.scopes = [{k: v for sc in save for k, v in sc.items() if v[0] == 'fun'}, {}]
        self.loops = []
        pv = [self.var(p) for p in ps]
        rv = [self.var(r) for r in rs]
        self.infun = rv
        g.emit('def %s(%s):' % (py, ', '.join(pv)))
        g.ind += 1
        for r in rv:
            g.emit('%s = 0' % r)
        self.block(body)
        self.leave()
        g.ind -= 1
        self.scopes, self.loops, self.infun = save, saveloops, savefun

    def leave(self):
        self.g.emit('return ' + (', '.join(self.infun) if self.infun else 'None'))

    def sub(self, b):
        self.g.ind += 1
        self.block(b)
        self.g.ind -= 1

    def stmt(self, s):
        g = self.g
        k = s[0]
        if k == 'yfun':
            return
        if k == 'yblock':
            self.block(s)
        elif k == 'ylet':
            if s[2] is None:
                for n in s[1]:
                    g.emit('%s = 0' % self.var(n))
            else:
                c = self.expr(s[2])
                g.emit('%s = %s' % (', '.join([self.var(n) for n in s[1]]), c))
        elif k == 'yassign':
            c = self.expr(s[2])
            if len(s[1]) == 1 and '.' in s[1][0] and self.look(s[1][0]) is None:
                base, fld = s[1][0].rsplit('.', 1)
                l = g.local(base)
                if l and l[2] == 'calldata' and fld in ('offset', 'length'):
                    g.emit('%s = (%s)' % (l[0], '%s, %s[1]' % (c, l[0]) if fld == 'offset' else '%s[0], %s' % (l[0], c)))
                    return
                if l and fld == 'slot':
                    g.emit('%s = %s' % (l[0], c))
                    return
                g.err('assembly assignment to %s' % s[1][0], s[3])
            tg = []
            for n in s[1]:
                tg.append(self.target(n, s[3]))
            g.emit('%s = %s' % (', '.join(tg), c))
        elif k == 'yexpr':
            g.emit(self.expr(s[1]))
        elif k == 'yif':
            g.emit('if %s:' % self.expr(s[1]))
            self.sub(s[2])
        elif k == 'yfor':
            self.scopes.append({})
            # names declared in init live through the loop
            for st in s[1][1]:
                self.stmt(st)
            g.emit('for _ in TURNS:')
            g.emit('    if not (%s): break' % self.expr(s[2]))
            post = s[3]
            self.loops.append(post)
            self.sub(s[4])
            self.loops.pop()
            g.ind += 1
            self.block(post)
            g.ind -= 1
            g.endless()
            self.scopes.pop()
        elif k == 'yswitch':
            t = g.tmp('sw')
            g.emit('%s = %s' % (t, self.expr(s[1])))
            kw = 'if'
            for lit, b in s[2]:
                g.emit('%s %s == %s:' % (kw, t, self.expr(lit)))
                self.sub(b)
                kw = 'elif'
            if s[3] is not None:
                if kw == 'if':
                    self.block(s[3])
                else:
                    g.emit('else:')
                    self.sub(s[3])
        elif k == 'ybreak':
            g.emit('break')
        elif k == 'ycontinue':
            self.block(self.loops[-1])
            g.emit('continue')
        elif k == 'yleave':
            self.leave()
        else:
            g.err('assembly %s' % k)

    def target(self, n, line):
        v = self.look(n)
        if v and v[0] == 'var':
            return v[1]
        if self.infun is not None:
            self.g.err('assembly function assigns %s' % n, line)
        l = self.g.local(n)
        if l:
            return l[0]
        self.g.err('assembly assignment to %s' % n, line)

    def expr(self, e):
        g = self.g
        k = e[0]
        if k == 'ylit':
            return str(e[1])
        if k == 'yid':
            return self.name(e[1], e[2])
        n, args, line = e[1], e[2], e[3]
        v = self.look(n)
        if v and v[0] == 'fun':
            if len(args) != v[2]:
                g.err('arguments of %s' % n, line)
            return '%s(%s)' % (v[1], ', '.join(self.expr(a) for a in args))
        f = YB.get(n)
        if f is None:
            g.err('assembly builtin %s' % n, line)
        a = [self.expr(x) for x in args]
        if isinstance(f, tuple):
            if len(a) != f[0]:
                g.err('arguments of %s' % n, line)
            return f[1].format(*a)
        return f(a)

    def name(self, n, line):
        g = self.g
        v = self.look(n)
        if v:
            return v[1]
        if '.' in n:
            base, fld = n.rsplit('.', 1)
            l = g.local(base)
            if l is not None:
                py, t, loc = l
                if loc == 'calldata':
                    if fld == 'offset':
                        return '%s[0]' % py
                    if fld == 'length':
                        return '%s[1]' % py
                if loc == 'storage' and fld == 'slot':
                    return py
                if loc == 'storage' and fld == 'offset':
                    return '0'
            if g.c is not None and fld == 'slot':
                for b in g.c.lin(g.u):
                    for sv in b.vars:
                        if sv['name'] == base:
                            return str(g.slots[id(sv)])
            if g.c is not None and fld == 'offset':
                return '0'
            g.err('assembly name %s' % n, line)
        l = g.local(n)
        if l is not None:
            return l[0]
        x = g.e_id(('id', n, line))
        if x.kind == 'val' and R.isval(x.t) and x.lv is None:
            return x.code
        g.err('assembly name %s' % n, line)


def _two(op):
    return (2, '(({0} ' + op + ' {1}) & %d)' % M)


def _add(a):
    return '((%s + %s) & M)' % tuple(a)


def _mod3(op):
    def f(a):
        if a[2].isdigit() and int(a[2]):
            return '((%s %s %s) %% %s)' % (a[0], op, a[1], a[2])
        return '%s(%s)' % ('y_addmod' if op == '+' else 'y_mulmod', ', '.join(a))
    return f


def _shl(a):
    if a[0].isdigit() and int(a[0]) < 256:
        return '((%s << %s) & M)' % (a[1], a[0])
    return 'y_shl(%s, %s)' % (a[0], a[1])


def _shr(a):
    if a[0].isdigit() and int(a[0]) < 256:
        return '(%s >> %s)' % (a[1], a[0])
    return 'y_shr(%s, %s)' % (a[0], a[1])


YB = {
    'add': (2, '(({0} + {1}) & M)'), 'sub': (2, '(({0} - {1}) & M)'), 'mul': (2, '(({0} * {1}) & M)'),
    'div': (2, 'y_div({0}, {1})'), 'mod': (2, 'y_mod({0}, {1})'), 'sdiv': (2, 'y_sdiv({0}, {1})'),
    'smod': (2, 'y_smod({0}, {1})'), 'exp': (2, 'y_exp({0}, {1})'), 'not': (1, '(M ^ {0})'),
    'lt': (2, '({0} < {1})'), 'gt': (2, '({0} > {1})'), 'eq': (2, '({0} == {1})'), 'iszero': (1, '(not {0})'),
    'slt': (2, '(sg({0}) < sg({1}))'), 'sgt': (2, '(sg({0}) > sg({1}))'),
    'and': (2, '({0} & {1})'), 'or': (2, '({0} | {1})'), 'xor': (2, '({0} ^ {1})'),
    'byte': (2, 'y_byte({0}, {1})'), 'shl': _shl, 'shr': _shr, 'sar': (2, 'y_sar({0}, {1})'),
    'addmod': _mod3('+'), 'mulmod': _mod3('*'), 'signextend': (2, 'y_signextend({0}, {1})'), 'clz': (1, 'y_clz({0})'),
    'keccak256': (2, 'kint(rt.rd({0}, {1}))'), 'pop': (1, '({0})'), 'mload': (1, 'ml({0})'),
    'mstore': (2, 'ms({0}, {1})'), 'mstore8': (2, 'rt.ms8({0}, {1})'), 'mcopy': (3, 'rt.mcopy({0}, {1}, {2})'),
    'sload': (1, 'rt.sl({0})'), 'sstore': (2, 'rt.ss({0}, {1})'), 'msize': (0, 'len(rt.m)'), 'gas': (0, 'rt.gas()'),
    'address': (0, 'rt.this'), 'caller': (0, 'rt.sender'), 'callvalue': (0, 'rt.value'), 'balance': (1, '0*({0})'),
    'selfbalance': (0, '0'), 'calldataload': (1, 'rt.cdl({0})'), 'calldatasize': (0, 'len(rt.data)'),
    'calldatacopy': (3, 'rt.copyin(rt.data, {0}, {1}, {2})'),
    'extcodesize': (1, 'len(rt.code({0}))'), 'extcodecopy': (4, 'rt.copyin(rt.code({0}), {1}, {2}, {3})'),
    'extcodehash': (1, 'kint(rt.code({0}))'),
    'returndatasize': (0, 'len(rt.ret)'), 'returndatacopy': (3, 'rt.retcopy({0}, {1}, {2})'),
    'create': (3, 'rt.create({0}, {1}, {2})'), 'create2': (4, 'rt.create({0}, {1}, {2}, {3})'),
    'call': (7, 'rt.y_call("call", {1}, {2}, {3}, {4}, {5}, {6})'),
    'staticcall': (6, 'rt.y_call("static", {1}, 0, {2}, {3}, {4}, {5})'),
    'delegatecall': (6, 'rt.y_call("delegate", {1}, 0, {2}, {3}, {4}, {5})'),
    'return': (2, 'yreturn(rt.rd({0}, {1}))'), 'revert': (2, 'rt.revertmem({0}, {1})'), 'stop': (0, "yreturn(b'')"),
    'invalid': (0, 'yinvalid()'), 'timestamp': (0, 'rt.blk("timestamp")'), 'number': (0, 'rt.blk("number")'),
    'chainid': (0, 'rt.blk("chainid")'), 'memoryguard': (1, '({0})'),
    'log0': (2, 'None'), 'log1': (3, 'None'), 'log2': (4, 'None'), 'log3': (5, 'None'), 'log4': (6, 'None'),
}
