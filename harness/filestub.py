"""Stand-ins for files and tables with symbolic contents (symbolic runs only)."""


class Content:
    """bytes"""

    def __init__(self, data):
        self.data = data

    def __len__(self):
        return len(self.data)

    def __bool__(self):
        return len(self.data) > 0

    def __iter__(self):
        return iter(self.data)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return Content(self.data[k])
        return self.data[k]

    def __add__(self, other):
        return Content(list(self.data) + list(other))

    def __eq__(self, other):
        if not isinstance(other, (Content, bytes, bytearray)):
            return False
        return list(self.data) == list(other)

    def __ne__(self, other):
        return not self == other

    def hex(self):
        return "".join(format(b, "02x") for b in self.data)

    def whole(self, order="big"):
        out = 0
        for b in self.data if order == "big" else self.data[::-1]:
            out = out * 256 + b
        return out


class File:
    """open binary file"""

    def __init__(self, data):
        self.data = list(data)
        self.pos = 0
        self.closed = False

    def read(self, size=-1):
        end = len(self.data) if size is None or size < 0 else min(self.pos + size, len(self.data))
        out = self.data[self.pos : end]
        self.pos = end
        return Content(out)

    read1 = read

    def seek(self, pos, whence=0):
        self.pos = pos if whence == 0 else (self.pos + pos if whence == 1 else len(self.data) + pos)
        return self.pos

    def tell(self):
        return self.pos

    def close(self):
        self.closed = True

    def readable(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.closed = True
        return None


class Out:
    """file being written"""

    def __init__(self, text):
        self.text = text
        self.parts = []
        self.closed = False

    def write(self, part):
        if self.text != isinstance(part, str):
            raise TypeError("wrong type to write")
        self.parts.append(part)

    def writelines(self, parts):
        for part in parts:
            self.write(part)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.closed = True
        return None


class Stored:
    """file written before"""

    def __init__(self, out):
        self.out = out
        self.pos = 0

    def read(self):
        if self.out.text:
            whole = ""
            for part in self.out.parts:
                whole = whole + part
            return whole
        if self.pos >= len(self.out.parts):
            raise EOFError("nothing was stored")
        self.pos = self.pos + 1  # objects end by themselves
        return self.out.parts[self.pos - 1]

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return None
