"""SymStr: a str whose characters may be symbolic.

Subclass of str, so C code (lxml, join, format) transports it; every Python
level comparison or inspection is answered symbolically.
"""
from . import engine
from .engine import (SymBool, Unsupported, CH_BASE, CH_FIRST, seq_eq, char_in,
                     char_range, has_sym, s_and, s_or, s_not)

WS = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0'
LB = '\n\r\x0b\x0c\x1c\x1d\x1e\x85'
HASH = 0x5f3759


def raw(s):
    return str.__str__(s)


def wrap(s):
    """Promote to SymStr when the string carries symbolic characters."""
    if type(s) is str and s and max(s) >= CH_FIRST and engine.cur is not None:
        return SymStr(s)
    return s


def promote(s):
    if type(s) is str:
        return SymStr(s)
    return s


def _truth(x):
    return bool(x)


def lt_formula(a, b):
    """a < b lexicographically, on raw strings."""
    import z3
    res = len(a) < len(b)
    n = min(len(a), len(b))
    for i in range(n - 1, -1, -1):
        c, d = a[i], b[i]
        e = engine.ceq(c, d)
        if e is True:
            continue
        ce, de = code(c), code(d)
        l = ce < de
        if e is False and isinstance(l, bool):
            res = l
            continue
        l = l if isinstance(l, bool) else SymBool(l)
        e = e if isinstance(e, bool) else SymBool(e)
        res = s_or([l, s_and([e, res])])
    return res


def code(c):
    a = ord(c)
    if a < CH_BASE:
        return a
    return engine.cur.chars[a][0]


def unsupported(name):
    def f(self, *a, **k):
        if has_sym(raw(self)):
            raise Unsupported('str.' + name)
        return SymStr(getattr(raw(self), name)(*a, **k))
    return f


def caseop(name):
    def f(self):
        r = raw(self)
        for c in r:
            if ord(c) >= CH_BASE:
                dom = engine.cur.chars[ord(c)][1]
                if dom.only is not None:
                    cps = dom.only
                elif dom.lo >= 0x4e00 and dom.hi <= 0x9fff:
                    continue
                else:
                    raise Unsupported('str.' + name)
                if any(getattr(chr(x), name)() != chr(x) for x in cps):
                    raise Unsupported('str.' + name)
        return SymStr(getattr(r, name)())
    return f


class SymStr(str):
    __slots__ = ()

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return seq_eq(raw(self), raw(o))

    def __ne__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return s_not(seq_eq(raw(self), raw(o)))

    def __hash__(self):
        return HASH

    def __lt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return lt_formula(raw(self), raw(o))

    def __gt__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return lt_formula(raw(o), raw(self))

    def __le__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return s_not(lt_formula(raw(o), raw(self)))

    def __ge__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return s_not(lt_formula(raw(self), raw(o)))

    def __str__(self):
        return self

    def __repr__(self):
        return "'" + raw(self) + "'"

    def __format__(self, spec):
        return str.__format__(raw(self), spec)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        return (SymStr, (raw(self),))

    def __iter__(self):
        for c in raw(self):
            yield SymStr(c)

    def __getitem__(self, i):
        return SymStr(raw(self)[i])

    def __add__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr(raw(self) + raw(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        return SymStr(raw(o) + raw(self))

    def __mul__(self, n):
        return SymStr(raw(self) * n)
    __rmul__ = __mul__

    def __mod__(self, args):
        return SymStr(raw(self) % args)

    def __contains__(self, sub):
        s, t = raw(self), raw(sub)
        return s_or([seq_eq(s[i:i + len(t)], t)
                     for i in range(len(s) - len(t) + 1)])

    def _bounds(self, start, end):
        n = len(self)
        start, end, _ = slice(start, end).indices(n)
        return start, end

    def find(self, sub, start=None, end=None):
        s, t = raw(self), raw(sub)
        a, b = self._bounds(start, end)
        for i in range(a, b - len(t) + 1):
            if seq_eq(s[i:i + len(t)], t):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        s, t = raw(self), raw(sub)
        a, b = self._bounds(start, end)
        for i in range(b - len(t), a - 1, -1):
            if seq_eq(s[i:i + len(t)], t):
                return i
        return -1

    def index(self, sub, start=None, end=None):
        i = self.find(sub, start, end)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def rindex(self, sub, start=None, end=None):
        i = self.rfind(sub, start, end)
        if i < 0:
            raise ValueError('substring not found')
        return i

    def count(self, sub, start=None, end=None):
        a, b = self._bounds(start, end)
        n = 0
        while True:
            i = self.find(sub, a, b)
            if i < 0:
                return n
            n += 1
            a = i + max(len(sub), 1)

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.startswith(x, start, end) for x in p)
        a, b = self._bounds(start, end)
        s = raw(self)[a:b]
        return bool(seq_eq(s[:len(p)], raw(p)))

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return any(self.endswith(x, start, end) for x in p)
        a, b = self._bounds(start, end)
        s = raw(self)[a:b]
        if len(s) < len(p):
            return False
        return bool(seq_eq(s[len(s) - len(p):], raw(p)))

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if p and self.endswith(p) else self

    def lstrip(self, chars=None):
        chars = WS if chars is None else chars
        s = raw(self)
        i = 0
        while i < len(s) and char_in(s[i], raw(chars)):
            i += 1
        return SymStr(s[i:])

    def rstrip(self, chars=None):
        chars = WS if chars is None else chars
        s = raw(self)
        i = len(s)
        while i > 0 and char_in(s[i - 1], raw(chars)):
            i -= 1
        return SymStr(s[:i])

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        s = raw(self)
        out = []
        if sep is None:
            i, n = 0, len(s)
            while i < n:
                while i < n and char_in(s[i], WS):
                    i += 1
                if i >= n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    out.append(SymStr(s[i:]).rstrip())
                    return out
                j = i
                while j < n and not char_in(s[j], WS):
                    j += 1
                out.append(SymStr(s[i:j]))
                i = j
            return out
        if len(sep) == 0:
            raise ValueError('empty separator')
        a = 0
        while maxsplit < 0 or len(out) < maxsplit:
            i = self.find(sep, a)
            if i < 0:
                break
            out.append(SymStr(s[a:i]))
            a = i + len(sep)
        out.append(SymStr(s[a:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        if sep is None:
            raise Unsupported('rsplit')
        s = raw(self)
        out = []
        b = len(s)
        while len(out) < maxsplit:
            i = self.rfind(sep, 0, b)
            if i < 0:
                break
            out.append(SymStr(s[i + len(sep):b]))
            b = i
        out.append(SymStr(s[:b]))
        return out[::-1]

    def splitlines(self, keepends=False):
        s = raw(self)
        out = []
        a = i = 0
        while i < len(s):
            if char_in(s[i], LB):
                j = i + 1
                if s[i] == '\r' and j < len(s) and s[j] == '\n':
                    j += 1
                out.append(SymStr(s[a:j] if keepends else s[a:i]))
                a = i = j
            else:
                i += 1
        if a < len(s):
            out.append(SymStr(s[a:]))
        return out

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self, SymStr(''), SymStr('')
        return self[:i], SymStr(raw(sep)), self[i + len(sep):]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return SymStr(''), SymStr(''), self
        return self[:i], SymStr(raw(sep)), self[i + len(sep):]

    def replace(self, old, new, count=-1):
        s = raw(self)
        old_, new_ = raw(old), raw(new)
        if old_ == '':
            return SymStr(s.replace(old_, new_, count))
        out = ''
        a = 0
        n = 0
        while count < 0 or n < count:
            i = self.find(old, a)
            if i < 0:
                break
            out += s[a:i] + new_
            a = i + len(old_)
            n += 1
        return SymStr(out + s[a:])

    def join(self, it):
        return SymStr(str.join(raw(self), it))

    def format(self, *a, **k):
        return SymStr(str.format(raw(self), *a, **k))

    def format_map(self, m):
        return SymStr(str.format_map(raw(self), m))

    def encode(self, *a, **k):
        return raw(self).encode(*a, **k)

    def isspace(self):
        s = raw(self)
        return s != '' and all(char_in(c, WS) for c in s)

    def isdigit(self):
        s = raw(self)
        return s != '' and all(char_range(c, 48, 57) for c in s)
    isdecimal = isnumeric = isdigit

    def ljust(self, *a):
        return SymStr(raw(self).ljust(*a))

    def rjust(self, *a):
        return SymStr(raw(self).rjust(*a))

    def center(self, *a):
        return SymStr(raw(self).center(*a))

    lower = caseop('lower')
    upper = caseop('upper')
    casefold = caseop('casefold')
    swapcase = caseop('swapcase')
    title = unsupported('title')
    capitalize = unsupported('capitalize')
    translate = unsupported('translate')
    expandtabs = unsupported('expandtabs')
    zfill = unsupported('zfill')

    def _pred(name):
        def f(self):
            if has_sym(raw(self)):
                raise Unsupported('str.' + name)
            return getattr(raw(self), name)()
        return f
    for _n in ('isalpha', 'isalnum', 'isupper', 'islower', 'isidentifier',
               'istitle', 'isprintable', 'isascii'):
        locals()[_n] = _pred(_n)
    del _n
