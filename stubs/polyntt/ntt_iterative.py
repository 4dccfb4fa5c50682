"""Stand-in for ZKNoxHQ/NTT's polyntt (not installable offline): negacyclic number-theoretic transform modulo 12289.
Entry i of the transform of f is f(psi^(2*brv(i)+1)), the order of the C reference and of the Solidity contracts."""
import numpy as np

_tabs = {}


def _tables(n, q):
    if (n, q) not in _tabs:
        assert q == 12289 and n & (n - 1) == 0 and 1 <= n <= 1024
        psi = pow(7, 1024 // n, q)
        bits = n.bit_length() - 1
        brv = [int(format(i, "0%db" % bits)[::-1], 2) if bits else 0 for i in range(n)]
        p = [1]
        for _ in range(2 * n - 1):
            p.append(p[-1] * psi % q)
        pw = np.array(p, dtype=np.int64)
        e = np.array([2 * b + 1 for b in brv], dtype=np.int64)
        M = pw[np.outer(e, np.arange(n)) % (2 * n)]
        ni = pow(n, q - 2, q)
        W = pw[(-np.outer(np.arange(n), e)) % (2 * n)] * ni % q
        _tabs[n, q] = M, W
    return _tabs[n, q]


class NTTIterative:
    def __init__(self, q):
        self.q = q

    def _vec(self, f):
        return np.array([int(x) % self.q for x in f], dtype=np.int64)

    def ntt(self, f):
        return (_tables(len(f), self.q)[0] @ self._vec(f) % self.q).tolist()

    def intt(self, f_ntt):
        return (_tables(len(f_ntt), self.q)[1] @ self._vec(f_ntt) % self.q).tolist()

    def vec_add(self, f, g):
        assert len(f) == len(g)
        return [(x + y) % self.q for x, y in zip(f, g)]

    def vec_sub(self, f, g):
        assert len(f) == len(g)
        return [(x - y) % self.q for x, y in zip(f, g)]

    def vec_mul(self, f, g):
        assert len(f) == len(g)
        return [x * y % self.q for x, y in zip(f, g)]

    def vec_div(self, f, g):
        assert len(f) == len(g)
        if any(y % self.q == 0 for y in g):
            raise ZeroDivisionError
        return [x * pow(y, -1, self.q) % self.q for x, y in zip(f, g)]
