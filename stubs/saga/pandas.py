"""Stand-in for the part of pandas the sampler test suite uses: a table of numbers."""
import numpy as np


class DataFrame(np.lib.mixins.NDArrayOperatorsMixin):
    def __init__(self, data=()):
        self.values = np.array(data.values if isinstance(data, DataFrame) else data, dtype=None)
        if self.values.ndim == 1:
            self.values = self.values.reshape(-1, 1)

    def __array__(self, dtype=None, copy=None):
        return np.array(self.values, dtype=dtype)

    def __array_ufunc__(self, ufunc, method, *args, **kw):
        return DataFrame(getattr(ufunc, method)(*[a.values if isinstance(a, DataFrame) else a for a in args], **kw))

    def __len__(self):
        return len(self.values)

    def __getitem__(self, column):
        return self.values[:, column]

    columns = property(lambda s: range(s.values.shape[1]))
    shape = property(lambda s: s.values.shape)
    size = property(lambda s: s.values.size)
    T = property(lambda s: s.transpose())

    def transpose(self):
        return DataFrame(self.values.T)

    def to_numpy(self):
        return self.values

    def mean(self, axis=0, **kw):
        return self.values.mean(axis=axis)

    def std(self, axis=0, ddof=1, **kw):
        return self.values.std(axis=axis, ddof=ddof)

    def var(self, axis=0, ddof=1, **kw):
        return self.values.var(axis=axis, ddof=ddof)

    def dot(self, other):
        return DataFrame(self.values.dot(np.asarray(other)))
