"""lxml under symbolic execution.

The real lxml trees are used.  SymElement, installed as the default element
class, hands text and attribute values out as SymStr, and evaluates path
expressions that compare text through symbolic equality.
"""
import re as _re
from lxml import etree
from . import engine
from .engine import has_sym, seq_eq, Unsupported
from .symstr import SymStr, raw

_E = etree._Element
_text = _E.text
_tail = _E.tail
_get = _E.get
_set = _E.set
_attrib = _E.attrib
_elementpath = None


def _w(v):
    if type(v) is str and v and max(v) >= engine.CH_FIRST and \
            engine.cur is not None:
        return SymStr(v)
    return v


def _r(v):
    return raw(v) if isinstance(v, SymStr) else v


class SymAttrib(object):
    """Mapping view over an _Attrib holding symbolic values."""

    def __init__(self, a):
        self._a = a

    def __len__(self):
        return len(self._a)

    def __bool__(self):
        return len(self._a) > 0

    def __iter__(self):
        return iter(self._a)

    def __contains__(self, k):
        return _r(k) in self._a

    def __getitem__(self, k):
        return _w(self._a[_r(k)])

    def __setitem__(self, k, v):
        self._a[_r(k)] = _r(v)

    def __delitem__(self, k):
        del self._a[_r(k)]

    def keys(self):
        return self._a.keys()

    def iterkeys(self):
        return iter(self._a.keys())

    def values(self):
        return [_w(v) for v in self._a.values()]

    def items(self):
        return [(k, _w(v)) for k, v in self._a.items()]

    def get(self, k, default=None):
        return _w(self._a.get(_r(k), default))

    def pop(self, k, *d):
        return _w(self._a.pop(_r(k), *d))

    def update(self, o):
        items = o.items() if hasattr(o, 'items') else o
        for k, v in items:
            self[k] = v

    def clear(self):
        self._a.clear()

    def has_key(self, k):
        return k in self._a

    def __eq__(self, o):
        a, b = dict(self.items()), dict(o.items())
        return set(a) == set(b) and all(a[k] == b[k] for k in a)

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return repr(dict(self.items()))


def _sym_texts(root):
    """elements below root (inclusive) with a symbolic text."""
    out = []
    for e in root.iter():
        t = _text.__get__(e)
        if t is not None and has_sym(t):
            out.append(e)
    return out


_LITERAL = _re.compile(r"'([^']*)'|\"([^\"]*)\"")
_CONCAT = _re.compile(r"""\bconcat\(\s*(?:'[^']*'|"[^"]*")"""
                      r"""(?:\s*,\s*(?:'[^']*'|"[^"]*"))*\s*\)""")


class _Canonical(object):
    """Make raw string equality inside C agree with symbolic equality for the
    comparisons a path expression can make."""

    def __init__(self, elem, path):
        self.saved = []
        p = path
        if has_sym(p):
            # a symbolic character that may be a quote is decided first
            out = ''
            for c in p:
                if c >= engine.CH_FIRST:
                    for q in '"\'':
                        if engine.char_in(c, q):
                            c = q
                            break
                out += c
            p = out
            spans = [m.span() for m in _LITERAL.finditer(p)]
            for i, c in enumerate(p):
                if c >= engine.CH_FIRST and not any(
                        s[0] < i < s[1] - 1 for s in spans):
                    raise Unsupported('symbolic path syntax')
        self.vars = {}
        p = _CONCAT.sub(self._concat, p)
        lits = []
        for m in _LITERAL.finditer(p):
            lits.append(m.group(1) if m.group(1) is not None else m.group(2))
        lits += self.vars.values()
        self.path = p
        self.lits = lits
        if not _re.search(r"\[(?!\d+\])", p):
            return
        root = elem.getroottree().getroot()
        elems = _sym_texts(root)
        if not elems and not any(has_sym(x) for x in lits):
            return
        rest = _LITERAL.sub('', p)
        if not lits and _re.search('[=<>]', rest):
            raise Unsupported('path predicate without literal')
        if _re.search(r'\b(contains|starts-with|substring|string-length|'
                      r'normalize-space|translate|number|sum|concat)\s*\(',
                      rest):
            raise Unsupported('path string function')
        # literals become variables, equal ones with equal values
        p = self.path = _LITERAL.sub(self._concat, p)
        lits = []
        for k, v in self.vars.items():
            for l in lits:
                if v == l:
                    break
                f = seq_eq(v, l)
                if f is not False and (f is True or bool(f)):
                    self.vars[k] = l
                    break
            else:
                lits.append(v)
        # representative for each literal, symbolic or not
        for e in root.iter():
            t = _text.__get__(e)
            if t is None:
                continue
            for l in lits:
                if t == l:
                    break
                f = seq_eq(t, l)
                if f is False:
                    continue
                if f is True or bool(f):
                    self.saved.append((e, t))
                    _text.__set__(e, l)
                    break

    def _concat(self, m):
        """a literal or a concat() of literals as a variable"""
        name = 'symvar%d' % len(self.vars)
        self.vars[name] = ''.join(
            x.group(1) if x.group(1) is not None else x.group(2)
            for x in _LITERAL.finditer(m.group(0)))
        return '$' + name

    def restore(self):
        for e, t in self.saved:
            _text.__set__(e, t)


class SymElement(etree.ElementBase):

    @property
    def text(self):
        t = _text.__get__(self)
        if engine.cur is not None and type(t) is str:
            return SymStr(t)
        return t

    @text.setter
    def text(self, v):
        _text.__set__(self, _r(v))

    @property
    def tail(self):
        return _w(_tail.__get__(self))

    @tail.setter
    def tail(self, v):
        _tail.__set__(self, _r(v))

    def get(self, key, default=None):
        v = _get(self, key, default)
        if engine.cur is None:
            return v
        return _w(v)

    def set(self, key, value):
        _set(self, key, _r(value))

    @property
    def attrib(self):
        a = _attrib.__get__(self)
        if engine.cur is not None:
            for v in a.values():
                if has_sym(v):
                    return SymAttrib(a)
        return a

    def items(self):
        return [(k, _w(v)) for k, v in _E.items(self)]

    def values(self):
        return [_w(v) for v in _E.values(self)]

    def itertext(self, *a, **k):
        for t in _E.itertext(self, *a, **k):
            yield _w(t)

    def _needs(self, path):
        if engine.cur is None or not isinstance(path, str):
            return False
        p = raw(path)
        return has_sym(p) or ('[' in p and '=' in p)

    def find(self, path, namespaces=None):
        if self._needs(path):
            return _elementpath.find(self, SymStr(path), namespaces)
        return _E.find(self, _r(path), namespaces)

    def findall(self, path, namespaces=None):
        if self._needs(path):
            return _elementpath.findall(self, SymStr(path), namespaces)
        return _E.findall(self, _r(path), namespaces)

    def iterfind(self, path, namespaces=None):
        if self._needs(path):
            return _elementpath.iterfind(self, SymStr(path), namespaces)
        return _E.iterfind(self, _r(path), namespaces)

    def findtext(self, path, default=None, namespaces=None):
        if self._needs(path):
            return _elementpath.findtext(self, SymStr(path), default,
                                         namespaces)
        return _w(_E.findtext(self, _r(path), default, namespaces))

    def xpath(self, path, **kw):
        if engine.cur is None or not isinstance(path, str):
            return _E.xpath(self, path, **kw)
        c = _Canonical(self, raw(path))
        try:
            r = _E.xpath(self, c.path, **dict(kw, **c.vars))
        finally:
            c.restore()
        if isinstance(r, list):
            return [_w(str(x)) if isinstance(x, str) else x for x in r]
        if isinstance(r, str):
            return _w(str(r))
        return r


def install():
    global _elementpath
    etree.set_element_class_lookup(
        etree.ElementDefaultClassLookup(element=SymElement))
    if _elementpath is None:
        from . import loader
        import os
        import lxml
        fn = os.path.join(os.path.dirname(lxml.__file__), '_elementpath.py')
        _elementpath = loader.load_source('symex._lxml_elementpath', fn)
        engine.on_path.append(lambda: _elementpath._cache.clear())
    etree.tostring = tostring_real


def tostring_real(*a, **k):
    r = _tostring(*a, **k)
    if isinstance(r, str):
        return _w(r)
    return r


_tostring = etree.tostring
