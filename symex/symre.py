"""A stand-in for module re: delegates to the real one unless the subject
(or the pattern) carries symbolic characters, in which case a backtracking
matcher enumerates the alternatives with their conditions in priority order
and forks on each."""
import re as _re
import re._parser as _p
import re._constants as _c

from . import engine
from .engine import (SymBool, Unsupported, has_sym, char_in, char_range, ceq,
                     s_and, s_or, s_not)
from .symstr import SymStr, raw, WS

DIGITS = (48, 57)


def _lit(c, cp):
    r = ceq(c, chr(cp))
    return r if isinstance(r, bool) else SymBool(r)


def _cat(c, cat):
    n = str(cat)
    neg = 'NOT_' in n
    if n.endswith('DIGIT'):
        f = char_range(c, *DIGITS)
    elif n.endswith('SPACE'):
        f = char_in(c, WS)
    elif n.endswith('WORD'):
        f = s_or([char_range(c, 48, 57), char_range(c, 65, 90),
                  char_range(c, 97, 122), char_in(c, '_'),
                  char_range(c, 0x4e00, 0x9fff)])
    else:
        raise Unsupported('regex category ' + n)
    return s_not(f) if neg else f


def _in(c, items):
    neg = False
    fs = []
    for op, av in items:
        if op is _c.NEGATE:
            neg = True
        elif op is _c.LITERAL:
            fs.append(_lit(c, av))
        elif op is _c.RANGE:
            fs.append(char_range(c, *av))
        elif op is _c.CATEGORY:
            fs.append(_cat(c, av))
        else:
            raise Unsupported('regex set %s' % op)
    f = s_or(fs)
    return s_not(f) if neg else f


def _and(conds, f):
    if f is True:
        return conds
    if f is False:
        return None
    return conds + (f,)


class _M(object):
    def __init__(self, s, flags):
        self.s = s
        self.n = len(s)
        if flags & (_re.IGNORECASE):
            raise Unsupported('regex IGNORECASE')
        self.flags = flags

    def run(self, ops, i, pos, groups, conds):
        """yield (pos, groups, conds) in backtracking priority order."""
        if i == len(ops):
            yield pos, groups, conds
            return
        op, av = ops[i]
        s = self.s
        if op in (_c.LITERAL, _c.NOT_LITERAL, _c.IN, _c.ANY):
            if pos >= self.n:
                return
            c = s[pos]
            if op is _c.LITERAL:
                f = _lit(c, av)
            elif op is _c.NOT_LITERAL:
                f = s_not(_lit(c, av))
            elif op is _c.ANY:
                f = True if self.flags & _re.DOTALL else \
                    s_not(char_in(c, '\n'))
            else:
                f = _in(c, av)
            cs = _and(conds, f)
            if cs is not None:
                yield from self.run(ops, i + 1, pos + 1, groups, cs)
        elif op is _c.AT:
            if av is _c.AT_BEGINNING or av is _c.AT_BEGINNING_STRING:
                if pos == 0:
                    f = True
                elif self.flags & _re.MULTILINE and av is _c.AT_BEGINNING:
                    f = char_in(s[pos - 1], '\n')
                else:
                    f = False
            elif av is _c.AT_END:
                if pos == self.n:
                    f = True
                elif pos == self.n - 1 or self.flags & _re.MULTILINE:
                    f = char_in(s[pos], '\n')
                else:
                    f = False
            elif av is _c.AT_END_STRING:
                f = pos == self.n
            elif av in (_c.AT_BOUNDARY, _c.AT_NON_BOUNDARY):
                w = [_cat(s[k], 'CATEGORY_WORD') if 0 <= k < self.n else False
                     for k in (pos - 1, pos)]
                f = s_not(engine.s_iff(w[0], w[1]))
                if av is _c.AT_NON_BOUNDARY:
                    f = s_not(f)
            else:
                raise Unsupported('regex at %s' % av)
            cs = _and(conds, f)
            if cs is not None:
                yield from self.run(ops, i + 1, pos, groups, cs)
        elif op is _c.SUBPATTERN:
            g, add, dele, sub = av
            if add or dele:
                raise Unsupported('regex inline flags')
            for p2, gr, cs in self.run(list(sub), 0, pos, groups, conds):
                if g is not None:
                    gr = dict(gr)
                    gr[g] = (pos, p2)
                yield from self.run(ops, i + 1, p2, gr, cs)
        elif op is _c.BRANCH:
            for alt in av[1]:
                for p2, gr, cs in self.run(list(alt), 0, pos, groups, conds):
                    yield from self.run(ops, i + 1, p2, gr, cs)
        elif op in (_c.MAX_REPEAT, _c.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            for p2, gr, cs in self.rep(sub, lo, hi, op is _c.MAX_REPEAT,
                                       pos, groups, conds, 0):
                yield from self.run(ops, i + 1, p2, gr, cs)
        elif op in (_c.ASSERT, _c.ASSERT_NOT):
            d, sub = av
            if d != 1:
                raise Unsupported('regex lookbehind')
            fs = []
            for p2, gr, cs in self.run(list(sub), 0, pos, groups, ()):
                fs.append(s_and(cs))
            f = s_or(fs)
            if op is _c.ASSERT_NOT:
                f = s_not(f)
            cs = _and(conds, f)
            if cs is not None:
                yield from self.run(ops, i + 1, pos, groups, cs)
        elif op is _c.GROUPREF:
            a, b = groups.get(av, (None, None))
            if a is None:
                return
            n = b - a
            if pos + n > self.n:
                return
            f = engine.seq_eq(s[a:b], s[pos:pos + n])
            cs = _and(conds, f)
            if cs is not None:
                yield from self.run(ops, i + 1, pos + n, groups, cs)
        else:
            raise Unsupported('regex op %s' % op)

    def rep(self, sub, lo, hi, greedy, pos, groups, conds, n):
        more = hi is _c.MAXREPEAT or n < hi

        def deeper():
            if more:
                for p2, gr, cs in self.run(sub, 0, pos, groups, conds):
                    if p2 == pos and n >= lo:
                        continue
                    yield from self.rep(sub, lo, hi, greedy, p2, gr, cs,
                                        n + 1)
        if n < lo:
            yield from deeper()
        elif greedy:
            yield from deeper()
            yield pos, groups, conds
        else:
            yield pos, groups, conds
            yield from deeper()


class Match(object):
    def __init__(self, pat, string, start, end, groups, ngroups, names):
        self.re = pat
        self.string = string
        self._s, self._e = start, end
        self._g = groups
        self._n = ngroups
        self._names = names
        self.pos, self.endpos = 0, len(string)

    def _idx(self, g):
        if isinstance(g, str):
            g = self._names[g]
        if g < 0 or g > self._n:
            raise IndexError('no such group')
        return g

    def span(self, g=0):
        g = self._idx(g)
        if g == 0:
            return self._s, self._e
        return self._g.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g):
        a, b = self.span(g)
        if a < 0:
            return None
        return self.string[a:b]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(default if self._one(i) is None else self._one(i)
                     for i in range(1, self._n + 1))

    def groupdict(self, default=None):
        return {k: default if self._one(v) is None else self._one(v)
                for k, v in self._names.items()}

    @property
    def lastindex(self):
        return max(self._g) if self._g else None


class Pattern(object):
    def __init__(self, pattern, flags=0):
        self.pattern = pattern
        self._sympat = isinstance(pattern, str) and has_sym(raw(pattern))
        self.flags = flags
        self._real = None if self._sympat else _re.compile(
            raw(pattern) if isinstance(pattern, str) else pattern, flags)
        self._ast = None

    def __repr__(self):
        return 're.compile(%r)' % (self.pattern,)

    def __eq__(self, o):
        return isinstance(o, Pattern) and self.pattern == o.pattern and \
            self.flags == o.flags

    def __hash__(self):
        return hash(raw(self.pattern))

    @property
    def groups(self):
        self._parse()
        return self._ast.state.groups - 1

    @property
    def groupindex(self):
        self._parse()
        return self._ast.state.groupdict

    def _parse(self):
        if self._ast is None:
            self._ast = _p.parse(raw(self.pattern), self.flags)

    def _symbolic(self, s):
        return isinstance(s, str) and (isinstance(s, SymStr) or
                                       self._sympat or has_sym(s))

    def _concrete(self, s):
        return not self._sympat and not has_sym(raw(s))

    def _lift(self, m, s):
        if m is None:
            return None
        g = {i: m.span(i) for i in range(1, self._real.groups + 1)
             if m.span(i)[0] >= 0}
        return Match(self, s, m.start(), m.end(), g, self._real.groups,
                     self._real.groupindex)

    def _try(self, s, start, full=False):
        self._parse()
        r = raw(s)
        m = _M(r, self._ast.state.flags | self.flags)
        ops = list(self._ast)
        for pos, groups, conds in m.run(ops, 0, start, {}, ()):
            if full and pos != len(r):
                continue
            f = s_and(conds)
            if f is True or (f is not False and bool(f)):
                return Match(self, s, start, pos, groups,
                             self._ast.state.groups - 1,
                             self._ast.state.groupdict)
        return None

    def search(self, s, pos=0, endpos=None):
        if endpos is not None:
            s = s[:endpos]
        if not self._symbolic(s):
            return self._real.search(s, pos)
        s = s if isinstance(s, SymStr) else SymStr(s)
        if self._concrete(s):
            return self._lift(self._real.search(raw(s), pos), s)
        for i in range(pos, len(s) + 1):
            r = self._try(s, i)
            if r is not None:
                return r
        return None

    def match(self, s, pos=0, endpos=None):
        if endpos is not None:
            s = s[:endpos]
        if not self._symbolic(s):
            return self._real.match(s, pos)
        s = s if isinstance(s, SymStr) else SymStr(s)
        if self._concrete(s):
            return self._lift(self._real.match(raw(s), pos), s)
        return self._try(s, pos)

    def fullmatch(self, s, pos=0):
        if not self._symbolic(s):
            return self._real.fullmatch(s, pos)
        s = s if isinstance(s, SymStr) else SymStr(s)
        if self._concrete(s):
            return self._lift(self._real.fullmatch(raw(s), pos), s)
        return self._try(s, pos, True)

    def finditer(self, s):
        if not self._symbolic(s):
            yield from self._real.finditer(s)
            return
        pos = 0
        while pos <= len(s):
            m = self.search(s, pos)
            if m is None:
                return
            yield m
            pos = m.end() if m.end() > m.start() else m.end() + 1

    def findall(self, s):
        if not self._symbolic(s):
            return self._real.findall(s)
        out = []
        for m in self.finditer(s):
            n = m._n
            out.append(m.group(0) if n == 0 else
                       (m.groups('')[0] if n == 1 else m.groups('')))
        return out

    def split(self, s, maxsplit=0):
        if not self._symbolic(s):
            return self._real.split(s, maxsplit)
        out = []
        a = 0
        for m in self.finditer(s):
            if maxsplit and len(out) >= maxsplit:
                break
            out.append(s[a:m.start()])
            out.extend(m.groups())
            a = m.end()
        out.append(s[a:])
        return out

    def subn(self, repl, s, count=0):
        if not self._symbolic(s) and not (
                isinstance(repl, str) and has_sym(raw(repl))):
            return self._real.subn(repl, s, count)
        out = SymStr('')
        a = 0
        n = 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out = out + s[a:m.start()]
            if callable(repl):
                out = out + repl(m)
            else:
                if '\\' in raw(repl):
                    parts = _re.split(r'\\(\d|g<\w+>)', raw(repl))
                    for k, x in enumerate(parts):
                        if k % 2 == 0:
                            if '\\' in x:
                                raise Unsupported('re.sub template')
                            out = out + x
                        else:
                            g = x[2:-1] if x[0] == 'g' else x
                            g = int(g) if g.isdigit() else g
                            out = out + (m.group(g) or '')
                else:
                    out = out + repl
            a = m.end()
            n += 1
        return out + s[a:], n

    def sub(self, repl, s, count=0):
        if not self._symbolic(s) and not (
                isinstance(repl, str) and has_sym(raw(repl))):
            return self._real.sub(repl, s, count)
        return self.subn(repl, s, count)[0]


_cache = {}


def compile(pattern, flags=0):
    if isinstance(pattern, Pattern):
        return pattern
    if isinstance(pattern, _re.Pattern):
        return Pattern(pattern.pattern, pattern.flags & ~_re.UNICODE)
    k = (raw(pattern), int(flags))
    r = _cache.get(k)
    if r is None:
        r = Pattern(pattern, flags)
        if not r._sympat:
            _cache[k] = r
    return r


def search(p, s, flags=0):
    return compile(p, flags).search(s)


def match(p, s, flags=0):
    return compile(p, flags).match(s)


def fullmatch(p, s, flags=0):
    return compile(p, flags).fullmatch(s)


def split(p, s, maxsplit=0, flags=0):
    return compile(p, flags).split(s, maxsplit)


def findall(p, s, flags=0):
    return compile(p, flags).findall(s)


def finditer(p, s, flags=0):
    return compile(p, flags).finditer(s)


def sub(p, repl, s, count=0, flags=0):
    return compile(p, flags).sub(repl, s, count)


def subn(p, repl, s, count=0, flags=0):
    return compile(p, flags).subn(repl, s, count)


def escape(s):
    if isinstance(s, SymStr):
        return SymStr(_re.escape(raw(s)))
    return _re.escape(s)


def __getattr__(name):
    return getattr(_re, name)
