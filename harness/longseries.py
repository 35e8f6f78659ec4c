"""A sequence of any length whose data nobody may look at.

Passed as the sequence of a randomness test, it lets the test choose its
parameters and check its recommendations for a length n which is a symbolic
number, and ends the run where the test first reads the data.  The parameters
are then read off the local variables of the test.
"""
import pandas as pd


class FirstUse(Exception):
    """the data is needed from here on"""


def used(*args, **kwargs):
    raise FirstUse()


class Nowhere:
    """nothing is missing"""

    def any(self):
        return False

    def sum(self):
        return 0

    def all(self):
        return False


class Long:
    def __init__(self, n):
        self._length = n

    @property
    def __class__(self):  # isinstance(_, pd.Series)
        return pd.Series

    def __len__(self):
        return self._length

    @property
    def size(self):
        return self._length

    @property
    def shape(self):
        return (self._length,)

    @property
    def hasnans(self):
        return False

    def reset_index(self, drop=False, **kwargs):
        return self

    def copy(self, deep=True):
        return self

    def nunique(self, dropna=True):
        return 2

    def unique(self):
        return [0, 1]

    def isna(self):
        return Nowhere()

    def isnull(self):
        return Nowhere()

    def __getitem__(self, key):
        if isinstance(key, slice) and key.step is None and (key.start is None or key.stop is None):
            n = self._length
            if key.start is None and key.stop is None:
                return self
            if key.stop is None:
                start = key.start if key.start >= 0 else max(n + key.start, 0)
                return Long(max(n - start, 0))
            stop = key.stop if key.stop >= 0 else max(n + key.stop, 0)
            return Long(min(stop, n))
        raise FirstUse()

    @property
    def iloc(self):
        return self

    @property
    def values(self):
        return self

    array = values

    def to_numpy(self, *args, **kwargs):
        return self

    to_list = tolist = astype = to_numpy

    def head(self, k=5):
        return self[:k]

    def tail(self, k=5):
        return self[max(self._length - k, 0) :]

    def __getattr__(self, name):
        if name == "_length":
            raise AttributeError(name)
        raise FirstUse()

    __iter__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __contains__ = __reversed__ = used
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __array__ = __hash__ = used


def caught_locals(e, name):
    """local variables of the library's function of that name when the exception passed it"""
    out = {}
    tb = e.__traceback__
    while tb is not None:
        frame = tb.tb_frame
        if frame.f_code.co_name == name and frame.f_globals.get("__name__", "").startswith("coinflip."):
            out = dict(frame.f_locals)
        tb = tb.tb_next
    return out
