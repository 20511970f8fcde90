"""numpy arrays with symbolic integers in them."""
import numpy as np


class SymInts:
    """union of integer ranges [lo, hi) with symbolic ends: what numpy.arange / numpy.concatenate return for symbolic arguments"""

    def __init__(self, parts):
        self.parts = list(parts)

    def element(self, H, name):
        from .pyvc import And, Or
        v = H.int(name)
        inside = Or(*[And(lo <= v, v < hi) for lo, hi in self.parts])
        nonempty = Or(*[lo < hi for lo, hi in self.parts])
        if not nonempty:
            raise IndexError('list index out of range')
        H.assume(inside)
        return v

    def _opaque(self, *_):
        return Opaque()

    __sub__ = __rsub__ = __add__ = __radd__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __abs__ = __neg__ = _opaque


class Opaque:
    """numbers whose values do not matter (weights of choices)"""

    def _opaque(self, *_):
        return self

    __sub__ = __rsub__ = __add__ = __radd__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __abs__ = __neg__ = __pow__ = _opaque
    __array_ufunc__ = None


SymInts.__array_ufunc__ = None


class SArr(np.ndarray):
    """object array; index arrays of Python integers held as objects are accepted"""

    @staticmethod
    def of(rows):
        a = np.empty((len(rows), len(rows[0])) if rows and isinstance(rows[0], (list, tuple)) else (len(rows),), dtype=object)
        for i, r in enumerate(rows):
            if a.ndim == 2:
                for j, x in enumerate(r):
                    a[i, j] = x
            else:
                a[i] = r
        return a.view(SArr)

    @staticmethod
    def _key(k):
        if isinstance(k, tuple):
            return tuple(SArr._key(x) for x in k)
        if isinstance(k, np.ndarray) and k.dtype == object:
            if k.size == 0:
                return np.zeros(k.shape, dtype=int)
            return np.array([x if isinstance(x, (bool, np.bool_)) else int(x) for x in k.flat]).reshape(k.shape)
        return k

    def __getitem__(self, k):
        return super().__getitem__(SArr._key(k))

    def __setitem__(self, k, v):
        super().__setitem__(SArr._key(k), v)
