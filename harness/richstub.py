"""Stand-ins for the classes of rich that hold content.

Symbolic runs only: the code under test imports these instead of the classes of
the same name (psx.loader), so that what is displayed may hold symbolic values.
They keep what they are given and lay nothing out.  Every check that uses them
is compared with runs on the real rich on sampled inputs.
"""
from functools import wraps


class Text:
    def __init__(self, text="", style="", *, justify=None, overflow=None, no_wrap=None, end="\n", tab_size=8, spans=None):
        if not isinstance(text, str):
            raise TypeError("Text is made of strings")
        self.plain = text
        self.style = style
        self.justify = justify
        self.overflow = overflow
        self.no_wrap = no_wrap
        self.end = end

    @classmethod
    def assemble(cls, *parts, style="", justify=None, overflow=None, no_wrap=None, end="\n", tab_size=8):
        text = Text("", style, justify=justify, end=end)
        for part in parts:
            if isinstance(part, (Text, str)):
                text.append(part)
            else:
                text.append(*part)
        return text

    @classmethod
    def styled(cls, text, style="", *, justify=None, overflow=None):
        return Text(text, style)

    def __len__(self):
        return len(self.plain)

    def __bool__(self):
        return len(self.plain) > 0

    def __str__(self):
        return self.plain

    def __add__(self, other):
        if isinstance(other, (str, Text)):
            result = self.copy()
            result.append(other)
            return result
        return NotImplemented

    def __eq__(self, other):
        if not isinstance(other, Text):
            return NotImplemented
        return self.plain == other.plain

    def __contains__(self, other):
        return (other.plain if isinstance(other, Text) else other) in self.plain

    def __getitem__(self, k):
        return Text(self.plain[k], self.style)

    @property
    def cell_len(self):
        return len(self.plain)

    def copy(self):
        return Text(self.plain, self.style, justify=self.justify, overflow=self.overflow, no_wrap=self.no_wrap, end=self.end)

    def blank_copy(self, plain=""):
        return Text(plain, self.style)

    def append(self, text, style=None):
        if isinstance(text, Text):
            self.plain = self.plain + text.plain
        elif isinstance(text, str):
            self.plain = self.plain + text
        else:
            raise TypeError("Only str or Text can be appended to Text")
        return self

    def append_text(self, text):
        self.plain = self.plain + text.plain
        return self

    def append_tokens(self, tokens):
        for content, style in tokens:
            self.plain = self.plain + content
        return self

    def join(self, lines):
        out = Text("", self.style)
        first = True
        for line in lines:
            if not first:
                out.append(self)
            out.append(line)
            first = False
        return out

    def stylize(self, style, start=0, end=None):
        return None

    def pad(self, count, character=" "):
        self.plain = character * count + self.plain + character * count

    def pad_left(self, count, character=" "):
        self.plain = character * count + self.plain

    def pad_right(self, count, character=" "):
        self.plain = self.plain + character * count

    def __rich_console__(self, console, options):
        yield self


class Column:
    def __init__(self, header="", footer="", **kwargs):
        self.header = header
        self.footer = footer
        self._cells = []

    @property
    def cells(self):
        return list(self._cells)


def is_renderable(x):
    return isinstance(x, str) or hasattr(x, "__rich_console__") or hasattr(x, "__rich__")


class Table:
    def __init__(self, *headers, title=None, caption=None, width=None, min_width=None, box=None, padding=(0, 1), show_header=True, **kwargs):
        self.title = title
        self.caption = caption
        self.width = width
        self.box = box
        self.padding = padding
        self.show_header = show_header
        self.columns = []
        self.row_count = 0
        for header in headers:
            self.add_column(header)

    @classmethod
    def grid(cls, *headers, padding=0, **kwargs):
        return cls(*headers, padding=padding, show_header=False)

    def add_column(self, header="", footer="", **kwargs):
        self.columns.append(Column(header, footer))

    def add_row(self, *renderables, style=None, end_section=False):
        cells = list(renderables)
        while len(self.columns) < len(cells):
            column = Column()
            for i in range(self.row_count):
                column._cells.append("")
            self.columns.append(column)
        for i, column in enumerate(self.columns):
            cell = cells[i] if i < len(cells) else None
            if cell is None:
                column._cells.append("")
            elif is_renderable(cell):
                column._cells.append(cell)
            else:
                raise TypeError("unable to render cell; a string or other renderable object is required")
        self.row_count = self.row_count + 1

    def __rich_console__(self, console, options):
        yield self


class Padding:
    def __init__(self, renderable, pad=(0, 0, 0, 0), *, style="none", expand=True):
        self.renderable = renderable

    def __rich_console__(self, console, options):
        yield self


class RenderGroup:
    def __init__(self, *renderables, fit=True):
        self.fit = fit
        self.renderables = list(renderables)

    def __rich_console__(self, console, options):
        yield self


def render_group(fit=True):
    def decorator(method):
        @wraps(method)
        def _replace(*args, **kwargs):
            return RenderGroup(*method(*args, **kwargs), fit=fit)

        return _replace

    return decorator


class Rule:
    def __init__(self, title="", *, characters="", style="rule.line", align="center", end="\n"):
        self.title = title
        self.style = style

    def __rich_console__(self, console, options):
        yield self


class Console:
    def __init__(self, *args, **kwargs):
        self.file = kwargs.get("file")

    def print(self, *objects, **kwargs):
        return None

    def rule(self, title="", **kwargs):
        return self.print(Rule(title))


class Progress:
    def __init__(self, *columns, **kwargs):
        self.count = 0

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None

    def start(self):
        return None

    def stop(self):
        return None

    def add_task(self, description, start=True, total=100, completed=0, visible=True, **fields):
        self.count = self.count + 1
        return self.count - 1

    def _known(self, task):
        if not (0 <= task and task < self.count):
            raise KeyError(task)

    def start_task(self, task_id):
        self._known(task_id)

    def stop_task(self, task_id):
        self._known(task_id)

    def update(self, task_id, *, total=None, completed=None, advance=None, description=None, visible=None, refresh=False, **fields):
        self._known(task_id)

    def advance(self, task_id, advance=1):
        self._known(task_id)

    def remove_task(self, task_id):
        self._known(task_id)

    def refresh(self):
        return None
