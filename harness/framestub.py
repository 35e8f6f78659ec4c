"""Stand-in for pandas.DataFrame holding symbolic values (symbolic runs only)."""
import pandas as pd


class Located:
    def __init__(self, frame):
        self.frame = frame

    def __getitem__(self, key):
        rows, cols = key if isinstance(key, tuple) else (key, slice(None))
        names = self.frame.columns[cols]
        if isinstance(names, list):
            data = {}
            for name in names:
                data[name] = self.frame._data[name].iloc[rows]
            return Frame(data)
        return self.frame._data[names].iloc[rows]


class Frame:
    def __init__(self, data=None):
        self._data = {}
        for name, values in (data or {}).items():
            self._data[name] = column(values)

    @property
    def columns(self):
        return list(self._data)

    @property
    def shape(self):
        return len(self), len(self._data)

    @property
    def iloc(self):
        return Located(self)

    @property
    def empty(self):
        return len(self) == 0 or len(self._data) == 0

    @property
    def ndim(self):
        return 2

    def __len__(self):
        for name in self._data:
            return len(self._data[name])
        return 0

    def __iter__(self):
        return iter(list(self._data))

    def __contains__(self, name):
        return name in self._data

    def __getitem__(self, name):
        if isinstance(name, list):
            return Frame({k: self._data[k] for k in name})
        return self._data[name]

    def __setitem__(self, name, values):
        if not hasattr(values, "__len__") or isinstance(values, str):
            values = [values] * len(self)
        self._data[name] = column(values)

    def items(self):
        return list(self._data.items())

    def squeeze(self, axis=None):
        if len(self._data) == 1 and axis in (None, 1, "columns"):
            for name in self._data:
                return self._data[name]
        return self

    def isna(self):
        return Frame({k: v.isna() for k, v in self._data.items()})

    isnull = isna

    def copy(self, deep=True):
        return Frame(self._data)

    def infer_objects(self):
        return self

    def melt(self, id_vars=None, value_vars=None, var_name="variable", value_name="value"):
        ids = [id_vars] if isinstance(id_vars, str) else list(id_vars or [])
        others = [k for k in self._data if k not in ids]
        out = {k: [] for k in ids}
        out[var_name] = []
        out[value_name] = []
        for k in others:
            for i in range(len(self)):
                for j in ids:
                    out[j].append(self._data[j].iloc[i])
                out[var_name].append(k)
                out[value_name].append(self._data[k].iloc[i])
        return Frame(out)


def column(values):
    if isinstance(values, pd.Series):
        return values
    return pd.Series(list(values))


def joined(frames):
    """the rows of all of them"""
    data = {name: [] for name in frames[0].columns}
    for frame in frames:
        for name in data:
            data[name].extend(list(frame[name]))
    return Frame(data)
