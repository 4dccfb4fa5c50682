"""ctypes view of the C reference (a build of /repo's sources, see build.lib)."""
import ctypes as C
import struct
from . import build

U8P = C.POINTER(C.c_ubyte)


def cbuf(n, fill=None):
    """n bytes of their own heap block (redzones under ASan)."""
    b = (C.c_ubyte * n)() if n else (C.c_ubyte * 0)()
    if fill is not None and n:
        C.memset(b, fill, n)
    return b


def frm(data):
    n = len(data)
    return (C.c_ubyte * n).from_buffer_copy(data) if n else (C.c_ubyte * 0)()


class Lib:
    def __init__(self, mode="shake", san="", katrng=False, cc="gcc"):
        self.mode = mode
        self.c = c = C.CDLL(build.lib(mode, san, katrng=katrng, cc=cc))
        self.Z = lambda n: getattr(c, "falcon_inner_" + n)
        for n in ("w_sizeof_shake", "w_sizeof_keccak", "w_sizeof_prng", "w_sizeof_sampler", "w_sizeof_fpr"):
            getattr(c, n).restype = C.c_size_t
        for n in "add sub mul div".split():
            f = getattr(c, "w_fpr_" + n); f.restype = C.c_uint64; f.argtypes = [C.c_uint64, C.c_uint64]
        for n in "neg half double sqr inv sqrt".split():
            f = getattr(c, "w_fpr_" + n); f.restype = C.c_uint64; f.argtypes = [C.c_uint64]
        for n in "rint trunc floor".split():
            f = getattr(c, "w_fpr_" + n); f.restype = C.c_int64; f.argtypes = [C.c_uint64]
        c.w_fpr_of.restype = C.c_uint64; c.w_fpr_of.argtypes = [C.c_int64]
        c.w_fpr_scaled.restype = C.c_uint64; c.w_fpr_scaled.argtypes = [C.c_int64, C.c_int]
        c.w_fpr_lt.argtypes = [C.c_uint64, C.c_uint64]
        c.w_fpr_expm_p63.restype = C.c_uint64; c.w_fpr_expm_p63.argtypes = [C.c_uint64, C.c_uint64]
        c.w_prng_u64.restype = C.c_uint64
        c.w_sampler_init.argtypes = [C.c_void_p, C.c_void_p, C.c_uint64]
        c.w_sampler_prng.restype = C.c_void_p; c.w_sampler_prng.argtypes = [C.c_void_p]
        c.w_sigma_min.restype = C.c_uint64
        c.w_inv_sigma.restype = C.c_uint64
        if not katrng:
            c.rb_seed.argtypes = [C.c_uint64]
            c.rb_set_script.argtypes = [C.c_void_p, C.c_size_t]
            c.rb_bytes_used.restype = C.c_uint64
            c.rb_call_len.restype = C.c_uint64
        for n in ("modq_encode", "modq_encode16", "comp_encode", "comp_encode16"):
            f = self.Z(n); f.restype = C.c_size_t; f.argtypes = [C.c_void_p, C.c_size_t, C.c_void_p, C.c_uint]
        for n in ("trim_i16_encode", "trim_i8_encode"):
            f = self.Z(n); f.restype = C.c_size_t; f.argtypes = [C.c_void_p, C.c_size_t, C.c_void_p, C.c_uint, C.c_uint]
        for n in ("modq_decode", "modq_decode16", "comp_decode", "comp_decode16"):
            f = self.Z(n); f.restype = C.c_size_t; f.argtypes = [C.c_void_p, C.c_uint, C.c_void_p, C.c_size_t]
        for n in ("trim_i16_decode", "trim_i8_decode"):
            f = self.Z(n); f.restype = C.c_size_t; f.argtypes = [C.c_void_p, C.c_uint, C.c_uint, C.c_void_p, C.c_size_t]
        for n in ("i_shake256_inject", "i_shake256_extract", "i_keccak256_inject", "i_keccak256_extract"):
            self.Z(n).argtypes = [C.c_void_p, C.c_void_p, C.c_size_t]
        for n in ("i_shake256_init", "i_shake256_flip", "i_keccak256_init", "i_keccak256_flip"):
            self.Z(n).argtypes = [C.c_void_p]
        self.Z("prng_get_bytes").argtypes = [C.c_void_p, C.c_void_p, C.c_size_t]
        self.Z("sampler").argtypes = [C.c_void_p, C.c_uint64, C.c_uint64]
        self.Z("gaussian0_sampler").argtypes = [C.c_void_p]
        self.Z("hint_epervier").restype = C.c_uint16
        self.Z("is_short_half").argtypes = [C.c_uint32, C.c_void_p, C.c_uint]
        self.Z("poly_mulconst").argtypes = [C.c_void_p, C.c_uint64, C.c_uint]
        for n in ("crypto_sign", "crypto_sign_open", "zknox_crypto_sign", "zknox_crypto_sign_open",
                  "zknox_crypto_sign_epervier", "zknox_crypto_sign_open_epervier"):
            getattr(c, n).argtypes = [C.c_void_p, C.c_void_p, C.c_void_p, C.c_ulonglong, C.c_void_p]
        for n in ("crypto_sign_keypair_from_seed", "zknox_crypto_sign_keypair_from_seed"):
            getattr(c, n).argtypes = [C.c_void_p, C.c_void_p, C.c_void_p, C.c_size_t]

    # -- api.h -------------------------------------------------------------------------------
    def seed(self, s):
        self.c.rb_seed(s & (2 ** 64 - 1))

    def script(self, data):
        self._keep = frm(data)
        self.c.rb_set_script(self._keep, len(data))

    def rb_log(self):
        return [self.c.rb_call_len(i) for i in range(self.c.rb_calls())]

    def keypair(self, zk=False, seed=None):
        pk, sk = cbuf(1025 if zk else 897, 0xA5), cbuf(1281, 0xA5)
        p = "zknox_" if zk else ""
        if seed is None:
            r = getattr(self.c, p + "crypto_sign_keypair")(pk, sk)
        else:
            s = frm(seed)
            r = getattr(self.c, p + "crypto_sign_keypair_from_seed")(pk, sk, s, len(seed))
        return r, bytes(pk), bytes(sk)

    OVER = {"nist": 690, "zknox": 1067, "epervier": 2094}
    SIGN = {"nist": "crypto_sign", "zknox": "zknox_crypto_sign", "epervier": "zknox_crypto_sign_epervier"}
    OPEN = {"nist": "crypto_sign_open", "zknox": "zknox_crypto_sign_open", "epervier": "zknox_crypto_sign_open_epervier"}

    def sign(self, kind, msg, sk, inplace=False, raw=False):
        """(ret, sm bytes or None). The sm buffer has exactly the documented size mlen + CRYPTO_BYTES."""
        cap = len(msg) + self.OVER[kind]
        sm = cbuf(cap, 0xA5)
        n = C.c_ulonglong(0xA5A5A5A5)
        k = frm(sk)
        if inplace:
            C.memmove(sm, bytes(msg), len(msg))
            m = sm
        else:
            m = frm(msg)
        r = getattr(self.c, self.SIGN[kind])(sm, C.byref(n), m, len(msg), k)
        if r != 0:
            return r, None
        if n.value > cap:
            return r, bytes(sm) + b"OVERLONG" * 3
        return r, bytes(sm)[:n.value]

    def open(self, kind, sm, pk, inplace=False):
        """(ret, message or None, output untouched on failure?)."""
        k = frm(pk)
        n = C.c_ulonglong(0xA5A5A5A5)
        if inplace:
            s = m = frm(sm)
        else:
            s = frm(sm)
            m = cbuf(len(sm), 0xA5)
        r = getattr(self.c, self.OPEN[kind])(m, C.byref(n), s, len(sm), k)
        if r != 0:
            if inplace:
                clean = bytes(m) == bytes(sm)
            else:
                clean = bytes(m) == b"\xa5" * len(sm)
            return r, None, clean and n.value in (0xA5A5A5A5, 0, 2 ** 64 - 1)
        v = n.value
        return r, (bytes(m)[:v] if v <= len(sm) else b"?" * 3), inplace or bytes(m)[v:] == b"\xa5" * (len(sm) - v)

    # -- contexts ----------------------------------------------------------------------------
    def shake(self, data=None):
        ctx = cbuf(self.c.w_sizeof_shake(), 0)
        self.Z("i_shake256_init")(ctx)
        if data is not None:
            d = frm(data)
            self.Z("i_shake256_inject")(ctx, d, len(data))
            self.Z("i_shake256_flip")(ctx)
        return ctx

    def keccak(self, data=None):
        ctx = cbuf(self.c.w_sizeof_keccak(), 0)
        self.Z("i_keccak256_init")(ctx)
        if data is not None:
            d = frm(data)
            self.Z("i_keccak256_inject")(ctx, d, len(data))
            self.Z("i_keccak256_flip")(ctx)
        return ctx

    def shake_out(self, ctx, n):
        o = cbuf(n)
        self.Z("i_shake256_extract")(ctx, o, n)
        return bytes(o)

    def prng(self, seed):
        """A ChaCha20 PRNG keyed from SHAKE256(seed)."""
        p = cbuf(self.c.w_sizeof_prng(), 0)
        self.Z("prng_init")(p, self.shake(seed))
        return p

    # -- arrays ------------------------------------------------------------------------------
    @staticmethod
    def i8(v):
        return (C.c_int8 * len(v))(*[int(x) for x in v])

    @staticmethod
    def i16(v):
        return (C.c_int16 * len(v))(*[int(x) for x in v])

    @staticmethod
    def u16(v):
        return (C.c_uint16 * len(v))(*[int(x) for x in v])

    @staticmethod
    def fpr(v):
        return (C.c_uint64 * len(v))(*[d2u(x) for x in v])

    @staticmethod
    def tmp(n):
        """n bytes, 8-byte aligned."""
        return (C.c_uint64 * ((n + 7) // 8))()


def d2u(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def u2d(u):
    return struct.unpack("<d", struct.pack("<Q", u & (2 ** 64 - 1)))[0]
