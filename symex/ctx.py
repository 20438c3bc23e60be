"""What a harness sees: symbolic inputs, assumptions and assertions.

The same harness runs under SymCtx (symbolic) and ConcCtx (replay of concrete
inputs on the unmodified implementation)."""
from . import engine
from .engine import (Domain, SymBool, Infeasible, s_and, s_or, s_not,
                     s_implies, s_iff)
from .symstr import SymStr, raw

# domains of symbolic characters
LOWER = Domain('a-z', 97, 122)
ALNUM = Domain('printable ASCII without space, XML and path specials', 33, 126,
               exclude='<>&"\'/[]=.:,{}')
# inside double quotes of YANG
QUOTED = Domain('printable ASCII without space, backslash, XML and path '
                'specials', 33, 126, exclude='<>&"\'/[]=.:,{}\\')
NAME = Domain('a-z0-9', 48, 122, exclude=':;<=>?@[\\]^_`' +
              ''.join(map(chr, range(65, 91))))
TEXT = Domain('printable ASCII except < > &', 33, 126, exclude='<>&')
ANY = Domain('printable ASCII', 33, 126)
WIDE = Domain('printable ASCII and space', 32, 126)
UNI = Domain('CJK', 0x4e00, 0x9fff)


class Violation(Exception):
    pass


class SkipRun(BaseException):
    """A replayed input does not satisfy an assumption."""


class Base(object):
    And = staticmethod(lambda *xs: s_and(
        xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs))
    Or = staticmethod(lambda *xs: s_or(
        xs[0] if len(xs) == 1 and isinstance(xs[0], (list, tuple)) else xs))
    Not = staticmethod(s_not)
    Implies = staticmethod(s_implies)
    Iff = staticmethod(s_iff)

    def __init__(self, tier='quick', known=()):
        self.tier = tier
        self.known = set(known)
        self.notes = []
        self.regions = []

    def pick(self, name, options):
        return options[self.choice(name, len(options))]

    def subset(self, name, items):
        return [x for i, x in enumerate(items)
                if self.bool('%s.%s' % (name, x))]

    @staticmethod
    def eq(a, b):
        """string equality as a formula (no fork)."""
        if a is None or b is None:
            return a is b
        return engine.seq_eq(raw(a), raw(b))

    def region(self, name, cond):
        """A region of the input space in which a listed known finding makes
        assertions fail."""
        if name in self.known:
            self.regions.append((name, cond))

    def note(self, *a):
        self.notes.append(' '.join(str(x) for x in a))


class SymCtx(Base):
    symbolic = True

    def __init__(self, path, tier='quick', known=()):
        Base.__init__(self, tier, known)
        self.p = path
        self.known_hits = []

    def str(self, name, n=1, dom=ALNUM):
        s = ''.join(engine.new_char('%s.%d' % (name, i), dom)
                    for i in range(n))
        self.p.inputs[name] = ('str', s)
        return SymStr(s)

    def bool(self, name):
        import z3
        v = z3.Bool(name)
        self.p.inputs[name] = ('bool', v)
        return self.p.fork(v)

    def symbool(self, name):
        import z3
        v = z3.Bool(name)
        self.p.inputs[name] = ('bool', v)
        return SymBool(v)

    def choice(self, name, n):
        import z3
        if n == 1:
            return 0
        v = z3.Int(name)
        self.p.inputs[name] = ('int', v)
        self.p.assume(SymBool(z3.And(v >= 0, v < n)))
        lo, hi = 0, n
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if self.p.fork(v < mid):
                hi = mid
            else:
                lo = mid
        return lo

    def assume(self, f):
        self.p.assume(f)

    def check(self, f, msg):
        if self.regions:
            reg = s_or([c for n, c in self.regions])
            ok = self.p.check(s_or([f, reg]), msg)
            for n, c in self.regions:
                m = self.p.query(s_and([s_not(f), c]))
                if m is not None:
                    self.known_hits.append((n, msg, self.p.concretise(m)))
            return ok
        return self.p.check(f, msg)

    def exception(self, msg):
        """An exception escaped from the API on this path."""
        self.check(False, msg)

    def cover(self, tag):
        c = self.p.stats.covers
        c[tag] = c.get(tag, 0) + 1


class ConcCtx(Base):
    symbolic = False

    def __init__(self, inputs, tier='quick', known=()):
        Base.__init__(self, tier, known)
        self.inputs = inputs
        self.failed = []
        self.checked = 0

    def _in(self, name, default):
        return self.inputs.get(name, default)

    def str(self, name, n=1, dom=ALNUM):
        v = self._in(name, None)
        if v is None:
            c = next(chr(x) for x in range(33, 0x10000) if x in dom)
            v = c * n
        return v

    def bool(self, name):
        return bool(self._in(name, False))

    symbool = bool

    def choice(self, name, n):
        if n == 1:
            return 0
        return int(self._in(name, 0))

    def assume(self, f):
        if not f:
            raise SkipRun()

    def check(self, f, msg):
        self.checked += 1
        if not f:
            self.failed.append((msg, [n for n, c in self.regions if c]))
        return bool(f)

    def exception(self, msg):
        self.check(False, msg)

    def cover(self, tag):
        pass
