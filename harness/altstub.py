"""Stand-in for altair: charts that keep their data (symbolic runs only)."""


class Chart:
    def __init__(self, data=None, **kwargs):
        self.data = data
        self.title = None
        self.encoding = {}
        self.layer = None
        self.vconcat = None

    def _copy(self):
        c = Chart(self.data)
        c.title = self.title
        c.encoding = self.encoding
        return c

    def mark_area(self, *args, **kwargs):
        return self._copy()

    mark_bar = mark_line = mark_rule = mark_point = mark_text = mark_circle = mark_area

    def encode(self, *args, **kwargs):
        c = self._copy()
        c.encoding = dict(self.encoding)
        for channel in args:
            c.encoding[type(channel).__name__.lower()] = channel
        for name, channel in kwargs.items():
            c.encoding[name] = channel
        return c

    def properties(self, **kwargs):
        c = self._copy()
        if "title" in kwargs:
            c.title = kwargs["title"]
        return c

    def to_json(self, *args, **kwargs):
        return "{}"

    def interactive(self, *args, **kwargs):
        return self

    def transform_calculate(self, *args, **kwargs):
        return self

    configure_axis = configure_view = transform_filter = transform_window = transform_fold = interactive

    def add_selection(self, *args):
        return self

    def __add__(self, other):
        return layer(self, other)

    def __and__(self, other):
        return vconcat(self, other)

    def __or__(self, other):
        return vconcat(self, other)


class LayerChart(Chart):
    def __init__(self, parts):
        self.data = None
        self.title = None
        self.encoding = {}
        self.layer = parts
        self.vconcat = None

    def properties(self, **kwargs):
        if "title" in kwargs:
            self.title = kwargs["title"]
        return self


def layer(*charts, **kwargs):
    parts = []
    for c in charts:
        if c.layer is None:
            parts.append(c)
        else:
            parts.extend(c.layer)
    return LayerChart(parts)


class Channel:
    def __init__(self, *args, **kwargs):
        self.args = args
        self.kwargs = kwargs
        self.shorthand = args[0] if args else kwargs.get("shorthand", kwargs.get("field"))


class X(Channel):
    pass


class Y(Channel):
    pass


class Axis(Channel):
    pass


class Scale(Channel):
    pass


class Color(Channel):
    pass


class Tooltip(Channel):
    pass


class Column(Channel):
    pass


class Legend(Channel):
    pass


def value(v):
    return v


def selection(*args, **kwargs):
    return Channel(*args, **kwargs)


class VConcatChart(Chart):
    def __init__(self, parts):
        self.data = None
        self.title = None
        self.encoding = {}
        self.layer = None
        self.vconcat = parts

    def properties(self, **kwargs):
        if "title" in kwargs:
            self.title = kwargs["title"]
        return self

    resolve_scale = properties


def vconcat(*charts, **kwargs):
    return VConcatChart(list(charts))


hconcat = vconcat
