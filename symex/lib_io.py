"""``io`` with a StringIO that accepts symbolic text."""
from io import *                   # noqa: F401,F403
from . import values as v


class StringIO:
    def __init__(self, initial_value="", newline="\n"):
        self._t, self._i, self._tail = initial_value or "", 0, []

    def _text(self):
        if self._tail:
            self._t = v.cat(self._t, *self._tail)
            self._tail = []
        return self._t

    def write(self, s):
        if not isinstance(s, str):
            raise TypeError("string argument expected, got %r" % type(s).__name__)
        if self._tail or self._i == len(self._t):
            self._tail.append(s)
        else:
            t = self._text()
            self._t = v.cat(t[:self._i], s, t[self._i + len(s):])
        self._i += len(s)
        return len(s)

    def writelines(self, it):
        for s in it:
            self.write(s)

    def getvalue(self):
        return self._text()

    def read(self, n=-1):
        t = self._text()
        e = len(t) if n is None or n < 0 else self._i + n
        r = t[self._i:e]
        self._i = max(self._i, min(e, len(t)))
        return r

    def readline(self, n=-1):
        t = self._text()
        k = t.find("\n", self._i) if len(t) > self._i else -1
        return self.read(-1 if k < 0 else k + 1 - self._i)

    def readlines(self, n=-1):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        r = self.readline()
        if len(r) == 0:
            raise StopIteration
        return r

    def seek(self, i, whence=0):
        t = self._text()
        self._i = i if whence == 0 else len(t)
        return self._i

    def tell(self):
        return self._i

    def truncate(self, n=None):
        t = self._text()
        self._t = t[:self._i if n is None else n]
        return self._i if n is None else n

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False
