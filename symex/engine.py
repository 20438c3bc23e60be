"""Path-exploring symbolic execution engine on top of Z3.

A *path* is one native CPython execution of a harness in which every value
that depends on an input is a proxy over Z3 terms.  Whenever Python needs the
truth value of a symbolic boolean the engine asks Z3 which outcomes are
feasible under the current path condition; if both are, one is taken and the
other is queued.  Exploration ends when the queue is empty: the feasible
paths then partition the whole bounded input space.
"""
import os
import sys
import time

VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa: E402


class Unsupported(BaseException):
    """The proxies cannot follow the program here (engine limitation)."""


class Infeasible(BaseException):
    """An assumption is false on this path."""


class Diverged(BaseException):
    """Re-execution did not follow the recorded decisions."""


class PathLimit(BaseException):
    """Too many decisions on one path."""


cur = None          # the active Path, or None in concrete mode


class Stats(object):
    FIELDS = ('paths', 'infeasible', 'forks', 'forced', 'queries', 'sat',
              'unsat', 'unknown', 'checks', 'checks_solver', 'unsupported',
              'diverged')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.covers = {}
        self.unsupported_msgs = {}

    def merge(self, o):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + getattr(o, f))
        self.solver_s += o.solver_s
        for k, v in o.covers.items():
            self.covers[k] = self.covers.get(k, 0) + v
        for k, v in o.unsupported_msgs.items():
            self.unsupported_msgs[k] = self.unsupported_msgs.get(k, 0) + v

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_s'] = round(self.solver_s, 3)
        return d


class SymBool(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return cur.fork(self.e)

    def __and__(self, o):
        return s_and([self, o])
    __rand__ = __and__

    def __or__(self, o):
        return s_or([self, o])
    __ror__ = __or__

    def __invert__(self):
        return s_not(self)

    def __eq__(self, o):
        if isinstance(o, bool):
            return self if o else s_not(self)
        if isinstance(o, SymBool):
            return SymBool(self.e == o.e)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else s_not(r)

    __hash__ = None

    def __repr__(self):
        return 'SymBool(%s)' % self.e


def s_not(a):
    if isinstance(a, SymBool):
        e = a.e
        if z3.is_not(e):
            return SymBool(e.arg(0))
        return SymBool(z3.Not(e))
    return not a


def s_and(xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x.e)
        elif not x:
            return False
    if not out:
        return True
    if len(out) == 1:
        return SymBool(out[0])
    return SymBool(z3.And(out))


def s_or(xs):
    out = []
    for x in xs:
        if isinstance(x, SymBool):
            out.append(x.e)
        elif x:
            return True
    if not out:
        return False
    if len(out) == 1:
        return SymBool(out[0])
    return SymBool(z3.Or(out))


def s_implies(a, b):
    return s_or([s_not(a), b])


def s_iff(a, b):
    if isinstance(a, SymBool):
        if isinstance(b, SymBool):
            return SymBool(a.e == b.e)
        return a if b else s_not(a)
    if isinstance(b, SymBool):
        return b if a else s_not(b)
    return bool(a) == bool(b)


MAX_DECISIONS = 20000


class Path(object):
    """One execution.  prefix: sequence of decision codes
    0/1 = free branch, 2/3 = forced branch."""

    def __init__(self, prefix, stats):
        self.prefix = prefix
        self.trace = bytearray()
        self.pending = []
        self.stats = stats
        self.solver = z3.SimpleSolver()
        self.model = None
        self.memo = {}
        self.keep = []
        self.eqcache = {}
        # symbolic characters: code point -> (z3 var, domain)
        self.chars = Chars()
        for f in on_path:
            f()
        self.char_names = {}
        self.inputs = {}
        self.violations = []

    # -- solver ------------------------------------------------------------
    def add(self, e):
        self.solver.add(e)
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None

    def _check(self, *extra):
        t = time.perf_counter()
        if extra:
            self.solver.push()
            self.solver.add(*extra)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            self.solver.pop()
        else:
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        st = self.stats
        st.solver_s += time.perf_counter() - t
        st.queries += 1
        if r == z3.sat:
            st.sat += 1
        elif r == z3.unsat:
            st.unsat += 1
        else:
            st.unknown += 1
            raise Unsupported('solver returned unknown')
        return m

    def get_model(self):
        if self.model is None:
            m = self._check()
            if m is None:
                raise Infeasible()
            self.model = m
        return self.model

    def unusual(self, seed, special):
        """A model of the path with characters that are rarely chosen."""
        import random
        r = random.Random('%d %r' % (seed, bytes(self.trace)))
        m = self.get_model()
        todo = [c for k, v in self.inputs.values() if k == 'str'
                for c in v if ord(c) in self.chars]
        r.shuffle(todo)
        for c in todo[:12]:
            e, dom = self.chars[ord(c)][:2]
            for k in range(3):
                x = ord(r.choice(special)) if r.random() < .6 else \
                    r.randint(dom.lo, dom.hi)
                if x not in dom:
                    continue
                n = self._check(e == x)
                if n is not None:
                    self.solver.add(e == x)
                    m = n
                    break
        return m

    def fork(self, e):
        neg = False
        while z3.is_not(e):
            e = e.arg(0)
            neg = not neg
        if z3.is_true(e):
            return not neg
        if z3.is_false(e):
            return neg
        k = e.get_id()
        r = self.memo.get(k)
        if r is not None:
            return r != neg
        v = self._fork(e)
        self.memo[k] = v
        self.keep.append(e)
        return v != neg

    def _fork(self, e):
        i = len(self.trace)
        if i > MAX_DECISIONS:
            raise PathLimit()
        if i < len(self.prefix):
            c = self.prefix[i]
            self.trace.append(c)
            v = bool(c & 1)
            if c < 2:
                self.solver.add(e if v else z3.Not(e))
            return v
        m = self.get_model()
        v = z3.is_true(m.eval(e, model_completion=True))
        other = z3.Not(e) if v else e
        m2 = self._check(other)
        if m2 is None:
            self.stats.forced += 1
            self.trace.append(3 if v else 2)
            return v
        self.stats.forks += 1
        self.pending.append(bytes(self.trace) + bytes([0 if v else 1]))
        self.trace.append(1 if v else 0)
        self.solver.add(e if v else z3.Not(e))
        return v

    # -- property side -----------------------------------------------------
    def assume(self, f):
        if isinstance(f, SymBool):
            if len(self.trace) >= len(self.prefix):
                if self.model is not None and z3.is_true(
                        self.model.eval(f.e, model_completion=True)):
                    self.solver.add(f.e)
                    return
                self.solver.add(f.e)
                self.model = None
                self.get_model()
            else:
                self.solver.add(f.e)
                self.model = None
        elif not f:
            raise Infeasible()

    def check(self, f, msg):
        """Assert f on this path; record a violation when Z3 finds a model of
        the path condition and not f."""
        self.stats.checks += 1
        if isinstance(f, SymBool):
            self.stats.checks_solver += 1
            m = self._check(z3.Not(f.e))
            if m is None:
                return True
        else:
            if f:
                return True
            m = self.get_model()
        self.violations.append((msg, self.concretise(m)))
        return False

    def query(self, f):
        """Model of the path condition and f, or None."""
        if isinstance(f, SymBool):
            return self._check(f.e)
        return self.get_model() if f else None

    def concretise(self, m):
        out = {}
        for name, (kind, val) in self.inputs.items():
            if kind == 'str':
                s = ''
                for ch in val:
                    i = ord(ch)
                    if i in self.chars:
                        s += chr(m.eval(self.chars[i][0],
                                        model_completion=True).as_long())
                    else:
                        s += ch
                out[name] = s
            elif kind == 'bool':
                out[name] = z3.is_true(m.eval(val, model_completion=True))
            elif kind == 'int':
                out[name] = m.eval(val, model_completion=True).as_long()
        return out


# ---------------------------------------------------------------------------
# symbolic characters live in unassigned Unicode planes: the C level (lxml,
# str.join, str.format ...) carries them around as ordinary characters
CH_BASE = 0x50000
CH_END = 0x10f000
CH_FIRST = chr(CH_BASE)
_next = [CH_BASE]
on_path = []        # called when a path starts (to drop caches)


class Chars(dict):
    def __missing__(self, k):
        # every path uses fresh code points: this one belongs to an earlier
        # path and survived in some cache
        raise Unsupported('symbolic state of an earlier path')


class Domain(object):
    """Set of code points: intervals minus exclusions."""

    def __init__(self, name, lo, hi, exclude='', only=None):
        self.name = name
        self.lo, self.hi = lo, hi
        self.exclude = frozenset(ord(c) for c in exclude)
        self.only = None if only is None else frozenset(ord(c) for c in only)

    def __contains__(self, cp):
        if self.only is not None:
            return cp in self.only
        return self.lo <= cp <= self.hi and cp not in self.exclude

    def disjoint(self, o):
        if self is o:
            return False
        if self.only is not None:
            return not any(c in o for c in self.only)
        if o.only is not None:
            return not any(c in self for c in o.only)
        return self.hi < o.lo or o.hi < self.lo

    def constraint(self, v):
        if self.only is not None:
            return z3.Or([v == c for c in sorted(self.only)])
        cs = [v >= self.lo, v <= self.hi]
        cs += [v != c for c in sorted(self.exclude)]
        return z3.And(cs)


def new_char(name, dom):
    p = cur
    cp = _next[0]
    _next[0] = cp + 1 if cp + 1 < CH_END else CH_BASE
    if cp % 0x10000 >= 0xfffe:      # non-characters
        return new_char(name, dom)
    v = z3.Int(name)
    p.chars[cp] = (v, dom)
    p.solver.add(dom.constraint(v))
    p.model = None
    return chr(cp)


def ceq(c, d):
    """Equality of two characters: bool or z3 BoolRef."""
    if c == d:
        return True
    a, b = ord(c), ord(d)
    if a < CH_BASE and b < CH_BASE:
        return False
    if a < b:
        a, b = b, a
    p = cur
    r = p.eqcache.get((a, b))
    if r is not None:
        return r
    v, dom = p.chars[a]
    if b >= CH_BASE:
        w, dom2 = p.chars[b]
        r = False if dom.disjoint(dom2) else (v == w)
    else:
        r = (v == b) if b in dom else False
    p.eqcache[(a, b)] = r
    return r


def seq_eq(s, t):
    """Equality of two raw strings: bool or SymBool."""
    if len(s) != len(t):
        return False
    out = []
    for c, d in zip(s, t):
        r = ceq(c, d)
        if r is True:
            continue
        if r is False:
            return False
        out.append(r)
    if not out:
        return True
    if len(out) == 1:
        return SymBool(out[0])
    return SymBool(z3.And(out))


def char_in(c, chars):
    """Membership of one character in a string of characters."""
    if ord(c) < CH_BASE:
        return c in chars
    out = []
    for d in chars:
        r = ceq(c, d)
        if r is True:
            return True
        if r is not False:
            out.append(r)
    if not out:
        return False
    return SymBool(z3.Or(out)) if len(out) > 1 else SymBool(out[0])


def char_range(c, lo, hi):
    a = ord(c)
    if a < CH_BASE:
        return lo <= a <= hi
    v, dom = cur.chars[a]
    if dom.only is None:
        if dom.hi < lo or hi < dom.lo:
            return False
        if lo <= dom.lo and dom.hi <= hi:
            return True
    else:
        if not any(lo <= x <= hi for x in dom.only):
            return False
        if all(lo <= x <= hi for x in dom.only):
            return True
    return SymBool(z3.And(v >= lo, v <= hi))


def has_sym(raw):
    return raw != '' and max(raw) >= CH_FIRST
