"""Run-time support for translated Solidity: EVM memory, storage, ABI coder,
accounts, message calls, contract creation and a small EVM for init code."""
import hashlib

from Crypto.Hash import keccak as _kk

M = (1 << 256) - 1
SIGN = 1 << 255
CAP = 1 << 26                      # memory beyond this: out of gas
frm = int.from_bytes
HIT = {}


class Revert(Exception):
    def __init__(self, data=b'', why=None):
        Exception.__init__(self, why or data[:200])
        self.data = data
        self.why = why


TURNS = range(2000000)


class OutOfGas(Revert):
    pass


class Unsupported(Exception):
    pass


def keccak(b):
    return _kk.new(digest_bits=256, data=bytes(b)).digest()


def kint(b):
    return frm(keccak(b), 'big')


def selector(sig):
    return keccak(sig.encode())[:4]


# ---- types -------------------------------------------------------------

def canon(t):
    k = t[0]
    if k == 'uint':
        return 'uint%d' % t[1]
    if k == 'int':
        return 'int%d' % t[1]
    if k == 'fb':
        return 'bytes%d' % t[1]
    if k in ('addr', 'contract'):
        return 'address'
    if k == 'bool':
        return 'bool'
    if k in ('bytes', 'string'):
        return k
    if k == 'enum':
        return 'uint8'
    if k == 'arr':
        return canon(t[1]) + ('[]' if t[2] is None else '[%d]' % t[2])
    if k == 'struct':
        return '(' + ','.join(canon(x) for _, x in t[2]) + ')'
    raise Unsupported('no canonical name for %r' % (t,))


def isval(t):
    return t[0] in ('uint', 'int', 'fb', 'addr', 'bool', 'contract', 'enum')


def isdyn(t):
    k = t[0]
    if k in ('bytes', 'string'):
        return True
    if k == 'arr':
        return t[2] is None or isdyn(t[1])
    if k == 'struct':
        return any(isdyn(x) for _, x in t[2])
    return False


def headsize(t):
    if isdyn(t):
        return 32
    if t[0] == 'arr':
        return t[2] * headsize(t[1])
    if t[0] == 'struct':
        return sum(headsize(x) for _, x in t[2])
    return 32


def slots(t):
    if t[0] == 'arr' and t[2] is not None:
        return t[2] * slots(t[1])
    if t[0] == 'struct':
        return sum(slots(x) for _, x in t[2])
    return 1


def word(v):
    return (v & M).to_bytes(32, 'big')


def valid(t, v):
    k = t[0]
    if k == 'uint':
        return v >> t[1] == 0
    if k == 'int':
        s = v - (1 << 256) if v & SIGN else v
        return -(1 << (t[1] - 1)) <= s < 1 << (t[1] - 1)
    if k == 'fb':
        return v & ((1 << (256 - 8 * t[1])) - 1) == 0
    if k in ('addr', 'contract'):
        return v >> 160 == 0
    if k == 'bool':
        return v < 2
    if k == 'enum':
        return v < t[2]
    return True


def clean(t, v):
    k = t[0]
    if k == 'uint':
        return v & ((1 << t[1]) - 1)
    if k == 'int':
        v &= (1 << t[1]) - 1
        if v >> (t[1] - 1):
            v |= M ^ ((1 << t[1]) - 1)
        return v
    if k == 'fb':
        return v & (M ^ ((1 << (256 - 8 * t[1])) - 1))
    if k in ('addr', 'contract'):
        return v & ((1 << 160) - 1)
    if k == 'bool':
        return 1 if v else 0
    return v


# ---- ABI on deep values ---------------------------------------------------

def enc1(t, v):
    k = t[0]
    if k in ('bytes', 'string'):
        return word(len(v)) + v + b'\0' * (-len(v) % 32)
    if k == 'arr':
        body = enc([t[1]] * len(v), v)
        return (word(len(v)) if t[2] is None else b'') + body
    if k == 'struct':
        return enc([x for _, x in t[2]], v)
    return word(v)


def enc(ts, vs):
    if ts and isval(ts[0]) and len(ts) > 8 and all(x == ts[0] for x in ts):
        return b''.join([word(v) for v in vs])
    head = sum(headsize(t) for t in ts)
    h, tail = [], []
    pos = head
    for t, v in zip(ts, vs):
        e = enc1(t, v)
        if isdyn(t):
            h.append(word(pos))
            tail.append(e)
            pos += len(e)
        else:
            h.append(e)
    return b''.join(h) + b''.join(tail)


def packed(ts, vs):
    out = []
    for t, v in zip(ts, vs):
        k = t[0]
        if k in ('uint', 'int'):
            out.append((v & ((1 << t[1]) - 1)).to_bytes(t[1] // 8, 'big'))
        elif k == 'fb':
            out.append(word(v)[:t[1]])
        elif k in ('addr', 'contract'):
            out.append(v.to_bytes(20, 'big'))
        elif k == 'bool':
            out.append(bytes([1 if v else 0]))
        elif k in ('bytes', 'string'):
            out.append(bytes(v))
        elif k == 'arr':
            out.append(b''.join(word(x) for x in v))
        elif k == 'enum':
            out.append(bytes([v]))
        else:
            raise Unsupported('encodePacked of %r' % (t,))
    return b''.join(out)


def rdword(d, p):
    if p < 0 or p + 32 > len(d):
        raise Revert(b'', 'abi: data too short')
    return frm(d[p:p + 32], 'big')


def dec1(t, d, p):
    """Value of type t whose encoding starts at p (for dynamic types: the
    position its offset points at)."""
    k = t[0]
    if k in ('bytes', 'string'):
        n = rdword(d, p)
        if n >> 64 or p + 32 + n > len(d):
            raise Revert(b'', 'abi: bytes too long')
        return bytes(d[p + 32:p + 32 + n])
    if k == 'arr':
        n = t[2]
        if n is None:
            n = rdword(d, p)
            p += 32
            if n >> 64 or p + n * headsize(t[1]) > len(d):
                raise Revert(b'', 'abi: array too long')
        return dec([t[1]] * n, d, p)
    if k == 'struct':
        return dec([x for _, x in t[2]], d, p)
    v = rdword(d, p)
    if not valid(t, v):
        raise Revert(b'', 'abi: dirty value')
    return v


def dec(ts, d, base=0):
    out = []
    p = base
    if sum(headsize(t) for t in ts) + base > len(d):
        raise Revert(b'', 'abi: data too short')
    for t in ts:
        if isdyn(t):
            off = rdword(d, p)
            if off >> 64:
                raise Revert(b'', 'abi: bad offset')
            out.append(dec1(t, d, base + off))
            p += 32
        else:
            out.append(dec1(t, d, p))
            p += headsize(t)
    return out


# ---- arithmetic helpers -----------------------------------------------------

PANIC = selector('Panic(uint256)')
ERROR = selector('Error(string)')


def panic(code):
    raise Revert(PANIC + word(code), 'panic 0x%x' % code)


def error(msg):
    raise Revert(ERROR + enc([('string',)], [msg]), msg.decode('latin1') if isinstance(msg, bytes) else msg)


def chk(v, mx):
    if v < 0 or v > mx:
        panic(0x11)
    return v


def sg(v):
    return v - (1 << 256) if v >> 255 else v


def chks(v, bits):
    if not -(1 << (bits - 1)) <= v < 1 << (bits - 1):
        panic(0x11)
    return v & M


def dvc(a, b):
    if b == 0:
        panic(0x12)
    return a // b


def mdc(a, b):
    if b == 0:
        panic(0x12)
    return a % b


def sdc(a, b, bits):
    a, b = sg(a), sg(b)
    if b == 0:
        panic(0x12)
    r = abs(a) // abs(b)
    return chks(r if (a < 0) == (b < 0) else -r, bits)


def smc(a, b):
    a, b = sg(a), sg(b)
    if b == 0:
        panic(0x12)
    r = abs(a) % abs(b)
    return (-r if a < 0 else r) & M


def powc(a, b, mx):
    if a > 1 and b > 256:
        panic(0x11)
    return chk(a ** b, mx)


def shlm(a, s, mask):
    return (a << s) & mask if s < 256 else 0


def shrm(a, s):
    return a >> s if s < 256 else 0


def sarm(a, s):
    return (sg(a) >> min(s, 256)) & M


def shlfb(a, s):
    return (a << s) & M if s < 256 else 0


def addmodc(a, b, q):
    if q == 0:
        panic(0x12)
    return (a + b) % q


def mulmodc(a, b, q):
    if q == 0:
        panic(0x12)
    return (a * b) % q


# Yul
def y_div(a, b):
    return a // b if b else 0


def y_mod(a, b):
    return a % b if b else 0


def y_sdiv(a, b):
    a, b = sg(a), sg(b)
    if b == 0:
        return 0
    r = abs(a) // abs(b)
    return (r if (a < 0) == (b < 0) else -r) & M


def y_smod(a, b):
    a, b = sg(a), sg(b)
    if b == 0:
        return 0
    r = abs(a) % abs(b)
    return (-r if a < 0 else r) & M


def y_addmod(a, b, q):
    return (a + b) % q if q else 0


def y_mulmod(a, b, q):
    return (a * b) % q if q else 0


def y_shl(s, a):
    return (a << s) & M if s < 256 else 0


def y_shr(s, a):
    return a >> s if s < 256 else 0


def y_sar(s, a):
    return (sg(a) >> min(s, 256)) & M


def y_byte(i, a):
    return (a >> (8 * (31 - i))) & 255 if i < 32 else 0


def y_exp(a, b):
    return pow(a, b, 1 << 256)


def y_signextend(b, a):
    if b >= 31:
        return a
    bits = 8 * (b + 1)
    return clean(('int', bits), a)


def y_clz(a):
    return 256 - int(a).bit_length()


# ---- contexts and the world --------------------------------------------------

class Ctx:
    """One message call: its own memory."""

    def __init__(self, w, this, sender, data=b'', value=0, static=False):
        self.w = w
        self.this = this
        self.sender = sender
        self.data = data
        self.value = value
        self.static = static
        self.ret = b''
        m = bytearray(1 << 17)
        self.m = m

        def grow(e):
            if e > CAP:
                raise OutOfGas(b'', 'out of gas (memory)')
            m.extend(bytes(max(e - len(m), len(m))))

        def ml(p):
            e = p + 32
            if e > len(m):
                grow(e)
            return frm(m[p:e], 'big')

        def ms(p, v):
            e = p + 32
            if e > len(m):
                grow(e)
            m[p:e] = v.to_bytes(32, 'big')

        def msr(v, p):
            ms(p, v)
            return v

        self.grow = grow
        self.ml = ml
        self.ms = ms
        self.msr = msr
        ms(0x40, 0x80)

    # -- raw memory
    def need(self, p, n):
        if n and p + n > len(self.m):
            self.grow(p + n)

    def rd(self, p, n):
        self.need(p, n)
        return bytes(self.m[p:p + n])

    def wr(self, p, b):
        self.need(p, len(b))
        self.m[p:p + len(b)] = b

    def ms8(self, p, v):
        self.need(p, 1)
        self.m[p] = v & 255

    def mcopy(self, d, s, n):
        if n:
            self.need(max(d, s), n)
            self.m[d:d + n] = bytes(self.m[s:s + n])

    def cdl(self, p):
        return frm(self.data[p:p + 32].ljust(32, b'\0'), 'big') if p < len(self.data) else 0

    def copyin(self, src, d, s, n):
        if n:
            b = src[s:s + n] if s < len(src) else b''
            self.need(d, n)
            self.m[d:d + n] = b.ljust(n, b'\0')

    def al(self, n):
        """allocate n bytes (rounded up), zeroed"""
        p = self.ml(0x40)
        n = (n + 31) & ~31
        if n > CAP or p > CAP:
            raise OutOfGas(b'', 'out of gas (allocation)')
        self.ms(0x40, p + n)
        self.need(p, n)
        self.m[p:p + n] = bytes(n)
        return p

    def bytes_(self, b):
        p = self.al(32 + len(b))
        self.ms(p, len(b))
        self.m[p + 32:p + 32 + len(b)] = b
        return p

    def getbytes(self, p):
        n = self.ml(p)
        if n > CAP:
            raise OutOfGas(b'', 'out of gas (bytes)')
        return self.rd(p + 32, n)

    def newarr(self, t, n):
        """new T[](n) / new bytes(n)"""
        if n >> 64:
            panic(0x41)
        if t[0] in ('bytes', 'string'):
            p = self.al(32 + n)
            self.ms(p, n)
            return p
        if n * 32 > CAP:
            raise OutOfGas(b'', 'out of gas (array)')
        p = self.al(32 + 32 * n)
        self.ms(p, n)
        if not isval(t[1]):
            for i in range(n):
                self.ms(p + 32 + 32 * i, self.zero(t[1]))
        return p

    def zero(self, t):
        """default value of a memory reference type"""
        k = t[0]
        if isval(t):
            return 0
        if k in ('bytes', 'string') or (k == 'arr' and t[2] is None):
            return 0x60
        if k == 'arr':
            p = self.al(32 * t[2])
            if not isval(t[1]):
                for i in range(t[2]):
                    self.ms(p + 32 * i, self.zero(t[1]))
            return p
        if k == 'struct':
            p = self.al(32 * len(t[2]))
            for i, (_, x) in enumerate(t[2]):
                if not isval(x):
                    self.ms(p + 32 * i, self.zero(x))
            return p
        raise Unsupported('zero of %r' % (t,))

    def lits(self, vals):
        p = self.al(32 * len(vals))
        for i, v in enumerate(vals):
            self.ms(p + 32 * i, v)
        return p

    # -- indexing
    def ixd(self, p, i):
        if i >= self.ml(p):
            panic(0x32)
        return p + 32 + 32 * i

    def ixb(self, p, i):
        if i >= self.ml(p):
            panic(0x32)
        a = p + 32 + i
        if a >= len(self.m):
            self.grow(a + 1)
        return a

    @staticmethod
    def ixs(p, i, n):
        if i >= n:
            panic(0x32)
        return p + 32 * i

    def msb(self, v, a):
        self.m[a] = v >> 248
        return v

    # -- deep values
    def deep(self, t, loc, v):
        if isval(t):
            return clean(t, int(v))
        if loc == 'memory':
            return self.deepm(t, v)
        if loc == 'storage':
            return self.deeps(t, v)
        if loc == 'calldata':
            return self.deepc(t, v)
        raise Unsupported('deep %r %r' % (t, loc))

    def deepm(self, t, p):
        k = t[0]
        if k in ('bytes', 'string'):
            return self.getbytes(p)
        if k == 'arr':
            n = t[2]
            if n is None:
                n = self.ml(p)
                p += 32
                if n * 32 > CAP:
                    raise OutOfGas(b'', 'out of gas (array)')
            if isval(t[1]):
                return [clean(t[1], self.ml(p + 32 * i)) for i in range(n)]
            return [self.deepm(t[1], self.ml(p + 32 * i)) for i in range(n)]
        if k == 'struct':
            return [clean(x, self.ml(p + 32 * i)) if isval(x) else self.deepm(x, self.ml(p + 32 * i))
                    for i, (_, x) in enumerate(t[2])]
        raise Unsupported('deepm %r' % (t,))

    def deeps(self, t, s):
        k = t[0]
        if isval(t):
            return self.sl(s)
        if k in ('bytes', 'string'):
            v = self.sto.get(s, b'')
            return v if isinstance(v, bytes) else b''
        if k == 'arr':
            n = t[2]
            if n is None:
                n = self.sl(s)
                s = kint(word(s))
            z = slots(t[1])
            return [self.deeps(t[1], (s + i * z) & M) for i in range(n)]
        if k == 'struct':
            out = []
            for _, x in t[2]:
                out.append(self.deeps(x, s))
                s += slots(x)
            return out
        raise Unsupported('deeps %r' % (t,))

    def deepc(self, t, v):
        k = t[0]
        if k in ('bytes', 'string'):
            return self.data[v[0]:v[0] + v[1]]
        if k == 'arr':
            if t[2] is None:
                return dec([t[1]] * v[1], self.data, v[0])
            return dec([t[1]] * t[2], self.data, v)
        return dec1(t, self.data, v)

    def put(self, t, d):
        """deep value -> memory"""
        k = t[0]
        if isval(t):
            return d
        if k in ('bytes', 'string'):
            return self.bytes_(d)
        if k == 'arr':
            n = len(d)
            p = self.al(32 * n + (32 if t[2] is None else 0))
            q = p
            if t[2] is None:
                self.ms(p, n)
                q += 32
            if isval(t[1]):
                self.m[q:q + 32 * n] = b''.join([word(x) for x in d])
            else:
                for i, x in enumerate(d):
                    self.ms(q + 32 * i, self.put(t[1], x))
            return p
        if k == 'struct':
            p = self.al(32 * len(t[2]))
            for i, (_, x) in enumerate(t[2]):
                self.ms(p + 32 * i, self.put(x, d[i]))
            return p
        raise Unsupported('put %r' % (t,))

    def tomem(self, t, loc, v):
        return self.put(t, self.deep(t, loc, v))

    # -- calldata references
    def cref(self, t, v):
        return v

    def cix(self, t, v, i):
        """element of calldata array/bytes"""
        if t[0] in ('bytes', 'string'):
            if i >= v[1]:
                panic(0x32)
            return self.data[v[0] + i] << 248
        n = v[1] if t[2] is None else t[2]
        if i >= n:
            panic(0x32)
        b = v[0] if t[2] is None else v
        return dec1(t[1], self.data, b + i * headsize(t[1]))

    def cslice(self, v, a, b):
        if b is None:
            b = v[1]
        if a > b or b > v[1]:
            raise Revert(b'', 'slice')
        return (v[0] + a, b - a)

    # -- storage
    @property
    def sto(self):
        return self.w.acc[self.this].sto

    def sl(self, s):
        return self.w.acc[self.this].sto.get(s, 0)

    def ss(self, s, v):
        if self.static:
            raise Revert(b'', 'state change in a static call')
        self.w.acc[self.this].sto[s] = int(v)

    def ssr(self, v, s):
        self.ss(s, v)
        return v

    def six(self, s, i, n, z):
        """slot of element i of a storage array"""
        if n is None:
            if i >= self.sl(s):
                panic(0x32)
            return (kint(word(s)) + i * z) & M
        if i >= n:
            panic(0x32)
        return s + i * z

    def smap(self, s, key):
        return kint((key if isinstance(key, bytes) else word(key)) + word(s))

    def sput(self, t, s, d):
        """deep value -> storage"""
        if self.static:
            raise Revert(b'', 'state change in a static call')
        k = t[0]
        if isval(t):
            self.ss(s, d)
        elif k in ('bytes', 'string'):
            self.sto[s] = bytes(d)
        elif k == 'arr':
            z = slots(t[1])
            if t[2] is None:
                self.ss(s, len(d))
                s = kint(word(s))
            for i, x in enumerate(d):
                self.sput(t[1], (s + i * z) & M, x)
            if t[2] is not None:
                for i in range(len(d), t[2]):
                    self.sput(t[1], s + i * z, zerodeep(t[1]))
        elif k == 'struct':
            for (_, x), v in zip(t[2], d):
                self.sput(x, s, v)
                s += slots(x)
        else:
            raise Unsupported('sput %r' % (t,))

    def spush(self, t, s, d):
        n = self.sl(s)
        self.ss(s, n + 1)
        if d is not None:
            self.sput(t[1], (kint(word(s)) + n * slots(t[1])) & M, d)

    def spop(self, t, s):
        n = self.sl(s)
        if n == 0:
            panic(0x31)
        self.sput(t[1], (kint(word(s)) + (n - 1) * slots(t[1])) & M, zerodeep(t[1]))
        self.ss(s, n - 1)

    # -- ABI on Solidity values: ts, list of (t, loc, v)
    def abienc(self, *items):
        return enc([t for t, _, _ in items], [self.deep(t, l, v) for t, l, v in items])

    def abipack(self, *items):
        return packed([t for t, _, _ in items], [self.deep(t, l, v) for t, l, v in items])

    def abidec(self, data, ts):
        vs = [self.put(t, d) for t, d in zip(ts, dec(ts, data))]
        return vs[0] if len(vs) == 1 else tuple(vs)

    # -- calls
    def xcall(self, to, sel, items, rets, static, value=0):
        """high-level external call"""
        data = sel + self.abienc(*items)
        if not self.w.hascode(to):
            raise Revert(b'', 'call to an account without code')
        ok, ret = self.w.call(self.this, to, data, static or self.static, value)
        self.ret = ret
        if not ok:
            raise Revert(ret, 'callee reverted')
        if not rets:
            return None
        return self.abidec(ret, rets)

    def rawcall(self, to, data, static=False, value=0, delegate=False):
        if delegate:
            raise Unsupported('delegatecall')
        ok, ret = self.w.call(self.this, to, data, static or self.static, value)
        self.ret = ret
        return ok, ret

    def y_call(self, kind, to, value, ip, il, op, ol):
        ok, ret = self.rawcall(to & ((1 << 160) - 1), self.rd(ip, il), kind == 'static', value, kind == 'delegate')
        self.wr(op, ret[:ol])
        return int(ok)

    def create(self, value, p, n, salt=None):
        if self.static:
            raise Revert(b'', 'create in a static call')
        return self.w.create(self.this, self.rd(p, n), salt)

    def code(self, a):
        return self.w.code(a & ((1 << 160) - 1))

    def revertmem(self, p, n):
        raise Revert(self.rd(p, n), 'revert')

    def newc(self, name, items, salt=None):
        if self.static:
            raise Revert(b'', 'create in a static call')
        return self.w.deploy(name, [self.deep(t, l, v) for t, l, v in items], self.this, salt)

    def gas(self):
        return 30_000_000

    def blk(self, what):
        return {'number': 20_000_000, 'timestamp': 1_700_000_000, 'chainid': 1, 'basefee': 7, 'coinbase': 0,
                'prevrandao': 12345, 'difficulty': 12345, 'gaslimit': 30_000_000}[what]


def zerodeep(t):
    k = t[0]
    if isval(t):
        return 0
    if k in ('bytes', 'string'):
        return b''
    if k == 'arr':
        return [] if t[2] is None else [zerodeep(t[1]) for _ in range(t[2])]
    return [zerodeep(x) for _, x in t[2]]


class Return(Exception):
    """Yul return(): raw return data"""

    def __init__(self, data):
        Exception.__init__(self)
        self.data = data


class Account:
    __slots__ = ('code', 'cls', 'sto', 'nonce')

    def __init__(self, code=b'', cls=None):
        self.code = code
        self.cls = cls
        self.sto = {}
        self.nonce = 1


VM = frm(keccak(b'hevm cheat code')[12:], 'big')


class World:
    def __init__(self, unit):
        self.unit = unit                # gen.Unit: compiles contracts on demand
        self.acc = {}
        self.log = []
        self.files = None
        self.calls = 0
        self.steps = 0

    def snapshot(self):
        return {a: (x.code, x.cls, dict(x.sto), x.nonce) for a, x in self.acc.items()}

    def restore(self, s):
        for a in list(self.acc):
            if a not in s:
                del self.acc[a]
        for a, (c, k, st, n) in s.items():
            x = self.acc[a]
            x.code, x.cls, x.sto, x.nonce = c, k, st, n

    def hascode(self, a):
        if a == VM:
            return True
        x = self.acc.get(a)
        return x is not None and (x.cls is not None or len(x.code) > 0)

    def code(self, a):
        x = self.acc.get(a)
        if x is None:
            return b''
        if x.cls is not None:
            return b'\xfe' + x.cls.name.encode()
        return x.code

    def newaddr(self, creator, salt=None, init=b''):
        x = self.acc.setdefault(creator, Account())
        if salt is not None:
            return frm(keccak(b'\xff' + creator.to_bytes(20, 'big') + word(salt) + keccak(init))[12:], 'big')
        n = x.nonce
        x.nonce += 1
        # rlp([address, nonce])
        nb = bytes([n]) if n < 0x80 else bytes([0x80 + (n.bit_length() + 7) // 8]) + n.to_bytes((n.bit_length() + 7) // 8, 'big')
        body = b'\x94' + creator.to_bytes(20, 'big') + nb
        return frm(keccak(bytes([0xc0 + len(body)]) + body)[12:], 'big')

    def deploy(self, name, args=(), creator=0xD0, salt=None):
        """Create an instance of a Solidity contract; args are deep values."""
        cls = self.unit.contract(name) if isinstance(name, str) else name
        a = self.newaddr(creator, salt, b'\xfe' + cls.name.encode())
        if salt is not None and a in self.acc and (self.acc[a].code or self.acc[a].cls):
            raise Revert(b'', 'address in use')
        self.acc[a] = Account(b'', cls)
        ctx = Ctx(self, a, creator)
        for f in cls.inits:
            f(ctx)
        if cls.ctor:
            f, ts = cls.ctor
            f(ctx, *[ctx.put(t, d) for t, d in zip(ts, args)])
        return a

    def create(self, creator, init, salt=None):
        a = self.newaddr(creator, salt, init)
        if a in self.acc and (self.acc[a].code or self.acc[a].cls):
            return 0
        ok, ret = evm(self, init, b'', a, creator)
        if not ok or len(ret) > 24576 or ret[:1] == b'\xef':
            return 0
        self.acc[a] = Account(ret)
        return a

    def call(self, sender, to, data, static=False, value=0):
        self.calls += 1
        if to == VM:
            return self.cheat(data)
        if to == 2:
            return True, hashlib.sha256(data).digest()
        if to == 4:
            return True, data
        x = self.acc.get(to)
        if x is None or not (x.cls or x.code):
            return True, b''
        snap = None if static else self.snapshot()
        try:
            if x.cls is None:
                ok, ret = evm(self, x.code, data, to, sender)
                if not ok and snap is not None:
                    self.restore(snap)
                return ok, ret
            return True, self.dispatch(x.cls, to, sender, data, static, value)
        except Return as r:
            return True, r.data
        except Revert as r:
            if snap is not None:
                self.restore(snap)
            self.why = r.why
            return False, r.data
        except RecursionError:
            if snap is not None:
                self.restore(snap)
            return False, b''

    def dispatch(self, cls, to, sender, data, static, value):
        f = cls.fns.get(bytes(data[:4])) if len(data) >= 4 else None
        if f is None:
            if cls.fallback is not None:
                ctx = Ctx(self, to, sender, data, value, static)
                cls.fallback(ctx)
                return b''
            raise Revert(b'', 'no such function')
        if value and f.mut != 'payable':
            raise Revert(b'', 'not payable')
        ctx = Ctx(self, to, sender, data, value, static or f.mut in ('view', 'pure'))
        r = f.fn(ctx, *decargs(ctx, f.params, data))
        if not f.rets:
            return b''
        rs = (r,) if len(f.rets) == 1 else r
        return enc([t for t, _ in f.rets], [ctx.deep(t, l, v) for (t, l), v in zip(f.rets, rs)])

    def cheat(self, data):
        sel = bytes(data[:4])
        body = data[4:]
        if sel == selector('etch(address,bytes)'):
            a, c = dec([('addr',), ('bytes',)], body)
            x = self.acc.setdefault(a, Account())
            x.code, x.cls = c, None
            return True, b''
        if sel == selector('readFile(string)'):
            p, = dec([('string',)], body)
            return True, enc([('string',)], [self.files(p.decode())])
        if sel == selector('ffi(string[])'):
            c, = dec([('arr', ('string',), None)], body)
            return True, enc([('bytes',)], [self.ffi([x.decode() for x in c])])
        if sel in (selector('startBroadcast()'), selector('stopBroadcast()')):
            return True, b''
        return False, b''


def decargs(ctx, params, data):
    """Arguments out of calldata (after the selector)."""
    out = []
    p = 4
    if 4 + sum(headsize(t) for t, _ in params) > len(data):
        raise Revert(b'', 'abi: calldata too short')
    for t, loc in params:
        q = p
        if isdyn(t):
            off = rdword(data, p)
            if off >> 64:
                raise Revert(b'', 'abi: bad offset')
            q = 4 + off
        if loc == 'calldata':
            if t[0] in ('bytes', 'string'):
                n = rdword(data, q)
                if n >> 64 or q + 32 + n > len(data):
                    raise Revert(b'', 'abi: bytes too long')
                out.append((q + 32, n))
            elif t[0] == 'arr' and t[2] is None:
                n = rdword(data, q)
                if n >> 64 or q + 32 + n * headsize(t[1]) > len(data):
                    raise Revert(b'', 'abi: array too long')
                out.append((q + 32, n))
            else:
                out.append(q)
        else:
            out.append(ctx.put(t, dec1(t, data, q)))
        p += headsize(t)
    return out


# ---- a small EVM, for init code and raw-code accounts -----------------------

def evm(w, code, data, this, sender, limit=200000):
    st = []
    m = bytearray()
    pc = 0
    sto = {}

    def need(p, n):
        if n and p + n > CAP:
            raise OutOfGas(b'', 'oog')
        if n and p + n > len(m):
            m.extend(bytes(p + n - len(m)))

    pop = st.pop
    ret = b''
    try:
        for _ in range(limit):
            op = code[pc] if pc < len(code) else 0
            pc += 1
            if op == 0x00:
                return True, b''
            if 0x5f <= op <= 0x7f:
                n = op - 0x5f
                st.append(frm(code[pc:pc + n].ljust(n, b'\0'), 'big') if n else 0)
                pc += n
            elif 0x80 <= op <= 0x8f:
                st.append(st[-1 - (op - 0x80)])
            elif 0x90 <= op <= 0x9f:
                n = op - 0x8f
                st[-1], st[-1 - n] = st[-1 - n], st[-1]
            elif op == 0x01:
                st.append((pop() + pop()) & M)
            elif op == 0x02:
                st.append((pop() * pop()) & M)
            elif op == 0x03:
                st.append((pop() - pop()) & M)
            elif op == 0x04:
                a, b = pop(), pop()
                st.append(y_div(a, b))
            elif op == 0x06:
                a, b = pop(), pop()
                st.append(y_mod(a, b))
            elif op == 0x10:
                st.append(int(pop() < pop()))
            elif op == 0x11:
                st.append(int(pop() > pop()))
            elif op == 0x14:
                st.append(int(pop() == pop()))
            elif op == 0x15:
                st.append(int(pop() == 0))
            elif op == 0x16:
                st.append(pop() & pop())
            elif op == 0x17:
                st.append(pop() | pop())
            elif op == 0x18:
                st.append(pop() ^ pop())
            elif op == 0x19:
                st.append(M ^ pop())
            elif op == 0x1b:
                a, b = pop(), pop()
                st.append(y_shl(a, b))
            elif op == 0x1c:
                a, b = pop(), pop()
                st.append(y_shr(a, b))
            elif op == 0x30:
                st.append(this)
            elif op == 0x33:
                st.append(sender)
            elif op == 0x34:
                st.append(0)
            elif op == 0x35:
                p = pop()
                st.append(frm(data[p:p + 32].ljust(32, b'\0'), 'big') if p < len(data) else 0)
            elif op == 0x36:
                st.append(len(data))
            elif op in (0x37, 0x39):
                d, s, n = pop(), pop(), pop()
                need(d, n)
                src = data if op == 0x37 else code
                m[d:d + n] = bytes(src[s:s + n]).ljust(n, b'\0') if s < len(src) else bytes(n)
            elif op == 0x38:
                st.append(len(code))
            elif op == 0x50:
                pop()
            elif op == 0x51:
                p = pop()
                need(p, 32)
                st.append(frm(m[p:p + 32], 'big'))
            elif op == 0x52:
                p, v = pop(), pop()
                need(p, 32)
                m[p:p + 32] = word(v)
            elif op == 0x53:
                p, v = pop(), pop()
                need(p, 1)
                m[p] = v & 255
            elif op == 0x54:
                st.append(sto.get(pop(), 0))
            elif op == 0x55:
                a, b = pop(), pop()
                sto[a] = b
            elif op == 0x56:
                pc = pop()
            elif op == 0x57:
                a, b = pop(), pop()
                if b:
                    pc = a
            elif op == 0x58:
                st.append(pc - 1)
            elif op == 0x5b:
                pass
            elif op == 0xf3:
                p, n = pop(), pop()
                need(p, n)
                return True, bytes(m[p:p + n])
            elif op == 0xfd:
                p, n = pop(), pop()
                need(p, n)
                return False, bytes(m[p:p + n])
            else:
                return False, b''
    except (IndexError, OutOfGas):
        return False, b''
    return False, ret


# ---- odds and ends used by generated code -------------------------------------

def fail():
    raise Revert(b'', 'revert')


def yreturn(d):
    raise Return(d)


def yinvalid():
    raise OutOfGas(b'', 'invalid opcode')


def shaint(b):
    return frm(hashlib.sha256(b).digest(), 'big')


def fbix(v, i, n):
    if i >= n:
        panic(0x32)
    return ((v >> (8 * (31 - i))) & 255) << 248


def sbix(b, i):
    if i >= len(b):
        panic(0x32)
    return b[i] << 248


def enumc(v, n):
    if v >= n:
        panic(0x21)
    return v


def _structput(self, vals):
    return self.lits(vals)


def _lowcall(self, to, data, kind, value):
    ok, ret = self.rawcall(to, data, kind == 'staticcall', value, kind == 'delegatecall')
    return ok, self.bytes_(ret)


def _retcopy(self, d, s, n):
    if s + n > len(self.ret):
        raise Revert(b'', 'returndatacopy')
    self.wr(d, self.ret[s:s + n])


Ctx.structput = _structput
Ctx.lowcall = _lowcall
Ctx.retcopy = _retcopy
