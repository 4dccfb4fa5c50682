"""Stand-in: the recursive transform computes the same values."""
from .ntt_iterative import NTTIterative


class NTTRecursive(NTTIterative):
    pass
