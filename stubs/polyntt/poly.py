"""Stand-in for polyntt.poly: polynomials modulo (x^n + 1, q). Coefficients are kept as given until an operation."""
from .ntt_iterative import NTTIterative


class Poly:
    def __init__(self, coeffs, q, ntt=NTTIterative):
        self.coeffs = coeffs
        self.q = q
        self.ntt_class = ntt
        self.NTT = ntt(q)

    def _new(self, c):
        return Poly(c, self.q, ntt=self.ntt_class)

    def __add__(self, other):
        return self._new(self.NTT.vec_add(self.coeffs, other.coeffs))

    def __neg__(self):
        return self._new([-c % self.q for c in self.coeffs])

    def __sub__(self, other):
        return self._new(self.NTT.vec_sub(self.coeffs, other.coeffs))

    def __mul__(self, other):
        T = self.NTT
        return self._new(T.intt(T.vec_mul(T.ntt(self.coeffs), T.ntt(other.coeffs))))

    def __truediv__(self, other):
        T = self.NTT
        return self._new(T.intt(T.vec_div(T.ntt(self.coeffs), T.ntt(other.coeffs))))

    def __eq__(self, other):
        return self.coeffs == other.coeffs and self.q == other.q

    def ntt(self):
        return self.NTT.ntt(self.coeffs)

    def inverse(self):
        T = self.NTT
        return self._new(T.intt(T.vec_div([1] * len(self.coeffs), T.ntt(self.coeffs))))
