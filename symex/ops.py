"""Run-time helpers the instrumented code calls.  Each is the identity on
ordinary Python values; they only differ when SymStr values are involved in
places where CPython would look at a string's hash or raw characters."""
from . import engine
from .engine import SymBool
from .symstr import SymStr, raw, wrap, promote


def _symkey(k):
    t = type(k)
    if t is SymStr:
        return True
    if t is tuple:
        for x in k:
            if _symkey(x):
                return True
    return False


def _strkey(k):
    t = type(k)
    if t is str:
        return True
    if t is tuple:
        for x in k:
            if _strkey(x):
                return True
    return False


def _scan(k, container):
    """Does a hash lookup of k in container need a linear scan?"""
    if _symkey(k):
        return True
    if _strkey(k):
        for x in container:
            if _symkey(x):
                return True
    return False


def _find(k, container):
    for x in container:
        if x is k or x == k:
            return x
    raise KeyError(k)


_HASHED = (dict, set, frozenset, type({}.keys()))


def contains(a, b):
    """a in b"""
    if engine.cur is None:
        return a in b
    if isinstance(b, _HASHED):
        if _scan(a, b):
            for x in b:
                if x is a or x == a:
                    return True
            return False
        return a in b
    if type(b) is str and isinstance(a, SymStr):
        return bool(SymStr.__contains__(SymStr(b), a))
    return a in b


def _set_le(a, b):
    for x in a:
        if not contains(x, b):
            return False
    return True


_SETS = (set, frozenset, type({}.keys()))


def _has_symkeys(c):
    for x in c:
        if _symkey(x):
            return True
    return False


def eq(a, b):
    if engine.cur is None:
        return a == b
    if isinstance(a, _SETS) and isinstance(b, _SETS) and \
            (_has_symkeys(a) or _has_symkeys(b)):
        return _set_le(a, b) and _set_le(b, a)
    if isinstance(a, dict) and isinstance(b, dict) and \
            (_has_symkeys(a) or _has_symkeys(b)):
        if not (_set_le(a, b) and _set_le(b, a)):
            return False
        return all(eq(a[k], b[_find(k, b)]) for k in a)
    return a == b


def ne(a, b):
    if engine.cur is None:
        return a != b
    if isinstance(a, _SETS + (dict,)) and isinstance(b, _SETS + (dict,)):
        return not eq(a, b)
    return a != b


def _setop(f):
    def g(a, b):
        if engine.cur is not None and isinstance(a, _SETS) and \
                isinstance(b, _SETS) and (_has_symkeys(a) or _has_symkeys(b)):
            return f(a, b)
        return None
    return g


_diff = _setop(lambda a, b: set(x for x in a if not contains(x, b)))
_and = _setop(lambda a, b: set(x for x in a if contains(x, b)))
_or = _setop(lambda a, b: set(a) | set(x for x in b if not contains(x, a)))


def sub(a, b):
    r = _diff(a, b)
    return a - b if r is None else r


def band(a, b):
    r = _and(a, b)
    return a & b if r is None else r


def bor(a, b):
    r = _or(a, b)
    return a | b if r is None else r


def le(a, b):
    if engine.cur is not None and isinstance(a, _SETS) and \
            isinstance(b, _SETS) and (_has_symkeys(a) or _has_symkeys(b)):
        return _set_le(a, b)
    return a <= b


def lt(a, b):
    if engine.cur is not None and isinstance(a, _SETS) and \
            isinstance(b, _SETS) and (_has_symkeys(a) or _has_symkeys(b)):
        return _set_le(a, b) and not _set_le(b, a)
    return a < b


def ge_(a, b):
    if engine.cur is not None and isinstance(a, _SETS) and \
            isinstance(b, _SETS):
        return le(b, a)
    return a >= b


def gt_(a, b):
    if engine.cur is not None and isinstance(a, _SETS) and \
            isinstance(b, _SETS):
        return lt(b, a)
    return a > b


def mod(a, b):
    r = a % b
    if engine.cur is not None and type(r) is str:
        return wrap(r)
    return r


def getitem(o, k):
    if engine.cur is not None and type(o) is dict and _scan(k, o):
        return o[_find(k, o)]
    return o[k]


def setitem(o, k, v):
    if engine.cur is not None and type(o) is dict and _scan(k, o):
        try:
            k = _find(k, o)
        except KeyError:
            pass
    o[k] = v


def delitem(o, k):
    if engine.cur is not None and type(o) is dict and _scan(k, o):
        k = _find(k, o)
    del o[k]


def fstr(*parts):
    return wrap(''.join(parts)) if engine.cur is not None else ''.join(parts)


def mcall(o, name, *args, **kw):
    if engine.cur is None:
        return getattr(o, name)(*args, **kw)
    t = type(o)
    if t is str:
        if name in ('join', 'format', 'format_map'):
            if name == 'join':
                args = (list(args[0]),) + args[1:]
            return wrap(getattr(o, name)(*args, **kw))
        for a in args:
            if type(a) is SymStr or (type(a) is tuple and _symkey(a)):
                return getattr(SymStr(o), name)(*args, **kw)
        return getattr(o, name)(*args, **kw)
    if t is dict and args:
        k = args[0]
        if name in ('get', 'pop', 'setdefault') and _scan(k, o):
            try:
                k = _find(k, o)
            except KeyError:
                pass
            return getattr(o, name)(k, *args[1:], **kw)
        if name == 'update' and (_has_symkeys(o) or (
                isinstance(k, dict) and _has_symkeys(k))):
            for x, v in (k.items() if isinstance(k, dict) else k):
                setitem(o, x, v)
            for x, v in kw.items():
                setitem(o, x, v)
            return None
    elif t is set and args:
        k = args[0]
        if name == 'add':
            if _scan(k, o):
                if not contains(k, o):
                    o.add(k)
                return None
        elif name in ('discard', 'remove'):
            if _scan(k, o):
                try:
                    k = _find(k, o)
                except KeyError:
                    if name == 'discard':
                        return None
                    raise
        elif name == 'update':
            for it in args:
                for x in it:
                    mcall(o, 'add', x)
            return None
        elif name in ('difference', 'intersection', 'union', 'issubset',
                      'issuperset', 'difference_update',
                      'intersection_update', 'symmetric_difference'):
            b = set()
            for x in k:
                mcall(b, 'add', x)
            if _has_symkeys(o) or _has_symkeys(b):
                if name == 'difference':
                    return sub(o, b)
                if name == 'intersection':
                    return band(o, b)
                if name == 'union':
                    return bor(o, b)
                if name == 'issubset':
                    return le(o, b)
                if name == 'issuperset':
                    return le(b, o)
                raise engine.Unsupported('set.' + name)
    return getattr(o, name)(*args, **kw)


def mkset(*args):
    """set(iterable)"""
    if engine.cur is None or not args:
        return set(*args)
    out = set()
    for x in args[0]:
        if _symkey(x):
            mcall(out, 'add', x)
        else:
            out.add(x)
    return out
