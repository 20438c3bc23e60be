"""YANG statements are what is written, and know where."""
import os
from symex.runner import Scenario
from symex.symstr import raw
from . import dev
from .common import show
from .C20 import folder, compiler

MODULES = ['ncdiff', 'ncdiff.model', 'ncdiff.manager']
ASSUMPTIONS = [
    'The tokenizer and the validation of statements are those of pyang, run '
    'natively; the parser and the positions are those of ncdiff.',
    'Places in the YANG text are chosen by the solver, the text itself is '
    'concrete.']


def setup():
    return dev.make()


class S(object):
    """a statement; where: file, first and last place of its text"""

    def __init__(self, keyword, arg=None, *subs):
        self.keyword, self.arg, self.subs = keyword, arg, list(subs)
        self.where = self.line = None

    def walk(self):
        yield self
        for s in self.subs:
            yield from s.walk()


def leaf(name, *subs):
    return S('leaf', name, S('type', 'string'), *subs)


def tokens(s):
    yield (s, 'keyword', s.keyword)
    if s.arg is not None:
        yield (s, 'arg', s.arg)
    if s.subs:
        yield (s, 'open', '{')
        for x in s.subs:
            yield from tokens(x)
        yield (s, 'end', '}')
    else:
        yield (s, 'end', ';')


ARGS = {
    'bare': lambda a: a if a and not set(a) & set(' \n\t;{}"\'/') else
    '"%s"' % a,
    'double': lambda a: '"%s"' % a,
    'single': lambda a: "'%s'" % a,
    'parts': lambda a: '"%s" + \'%s\'' % (a[:1], a[1:])
    if '\n' not in a else '"%s"' % a,
    'three parts': lambda a: '"%s" + "%s" + "%s"' % (a[:1], a[1:2], a[2:])
    if '\n' not in a else "'%s'" % a,
    'parts at a space': lambda a: '"%s" + "%s"' % (a[:2], a[2:])
    if '\n' not in a else '"%s"' % a,
    'parts below': lambda a: '"%s"\n + "%s"' % (a[:1], a[1:])
    if '\n' not in a else '"%s"' % a,
}
LAYOUT = [' ', '\n', '\n\n  ', '\t', ' // { ;\n', ' /* } " */ ', '\n/*\n;*/\n']


def write(name, s, gap, spelling):
    """the text of a module; gap(i): what to write in front of token i"""
    text = ''

    def place():
        # pyang counts characters of the line
        return text.count('\n') + 1, len(text) - text.rfind('\n') - 1
    for i, (x, kind, t) in enumerate(tokens(s)):
        if kind == 'arg':
            t = spelling(t)
        text += gap(i, kind) if i or name else ''
        if kind == 'keyword':
            x.where = (name, place(), None)
        text += t
        if kind == 'end':
            x.where = x.where[:2] + (place(),)
    return text + '\n'


def header(name, *more):
    return [S('namespace', 'urn:' + name), S('prefix', name)] + list(more) + \
        [S('revision', '2024-01-01')]


def compare(ctx, st, s, d, first=True):
    """the statements of a file, in order"""
    ctx.check(st.keyword == s.keyword and st.arg == s.arg,
              'not the statement that is written')
    p = st.pos
    ctx.check(p.ref == os.path.join(d, s.where[0] + '.yang'), 'wrong file')
    if first:
        ctx.check(p.first_line == s.where[1], 'wrong first place')
    ctx.check(p.last_line == s.where[2], 'wrong last place')
    ctx.check(p.label(True) == '%s.yang:%d' % (s.where[0], p.line) and
              str(p) == p.label() == '%s:%d' % (p.ref, p.line),
              'wrong label')
    ctx.check(s.where[1][0] <= p.line <= s.where[2][0], 'wrong line')
    ctx.check([x.keyword for x in st.substmts] ==
              [x.keyword for x in s.subs], 'not the statements inside')
    for a, b in zip(st.substmts, s.subs):
        ctx.check(a.parent is st, 'wrong parent')
        compare(ctx, a, b, d)


def gaps(ctx, n, name, layout=LAYOUT):
    """one way to separate tokens everywhere, another one at one place"""
    usual = ctx.pick('usual %s' % name, [' ', '\n', '\n\t'])
    at = ctx.choice('at %s' % name, n + 1)
    if at == n:
        return lambda i, kind: usual
    there = ctx.pick('there %s' % name, layout)
    return lambda i, kind: there if i == at else usual


def module_c(more=()):
    return S('module', 'm', *(header('m') + [
        S('container', 'c', S('description', 'a\n{ b'),
          leaf('a', S('default', 'x')),
          S('leaf-list', 'b', S('type', 'int8', S('range', '0..6'))),
          S('list', 'l', S('key', 'k j'), leaf('k'), leaf('j'))),
        S('rpc', 'r', S('input', None, leaf('i')))] + list(more)))


def lines(ctx, env):
    """every statement of a module spans the text that it is written as"""
    s = module_c()
    n = len(list(tokens(s)))
    how = ctx.pick('arguments', sorted(ARGS))
    text = write('m', s, gaps(ctx, n, 'm'), ARGS[how])
    with folder({'m': text}) as d:
        show(ctx, text=text)
        c = compiler(ctx, d)
        c.compile('m')
        ctx.check(not c.pyang_errors, 'valid YANG is not accepted: %s' % [
            (str(p), e) for p, e, a in c.pyang_errors])
        compare(ctx, c.context.get_statement('m'), s, d, False)
        for path, x in (('/m:c', s.subs[3]), ('/m:c/m:a', s.subs[3].subs[1]),
                        ('/m:c/m:l/m:j', s.subs[3].subs[3].subs[2])):
            st = c.context.get_statement('m', path)
            ctx.check(st is not None, 'no statement')
            compare(ctx, st, x, d)


def files(ctx, mods, usual):
    """write modules with one way to separate tokens, another one at one
    place of one of them"""
    names = sorted(mods)
    there = raw(ctx.pick('file', names))
    out = {}
    for n in names:
        k = len(list(tokens(mods[n])))
        at = ctx.choice('at', k + 1) if n == there else k
        what = ctx.pick('there', ['\n\n', ' // {\n']) if at < k else None
        out[n] = write(n, mods[n], lambda i, kind: what if i == at else usual,
                       ARGS['bare'])
    return out


def used(ctx, env):
    """statements of groupings and augments are found where they are written"""
    home = raw(ctx.pick('grouping in', ['m', 's', 'n']))
    by = raw(ctx.pick('augment in', ['m', 's', 'n', 'grouping']))
    g = S('grouping', 'g', leaf('z'), S('container', 'w', leaf('v')))
    uses = S('uses', ('n:' if home == 'n' else '') + 'g')
    c = S('container', 'c', leaf('a'), uses)
    path = {'n': '/m:c'}.get(by, '/c')
    added = leaf('q')
    if by == 'grouping':
        aug = S('augment', 'w', added)
        uses.subs.append(aug)
        to = '/m:c/m:w/m:q'
    else:
        aug = S('augment', path, added)
        to = '/m:c/%s:q' % ('n' if by == 'n' else 'm')
    mods = {
        'm': S('module', 'm', S('yang-version', '1.1'), *header('m')),
        's': S('submodule', 's', S('yang-version', '1.1'),
               S('belongs-to', 'm', S('prefix', 'm')),
               S('revision', '2024-01-01')),
        'n': S('module', 'n', S('yang-version', '1.1'), *header('n'))}
    if home == 'n' and by == 'n':
        ctx.assume(False)       # they would import each other
    if by == 's':
        # a submodule sees what its module defines (RFC 7950), pyang not so
        ctx.assume(False)
    mods['m'].subs.insert(3, S('include', 's'))
    if home == 'n':
        mods['m'].subs.insert(3, S('import', 'n', S('prefix', 'n')))
    if by == 'n':
        mods['n'].subs.insert(3, S('import', 'm', S('prefix', 'm')))
    mods[home].subs.append(g)
    mods['m'].subs.append(c)
    if by != 'grouping':
        mods[by].subs.append(aug)
    with folder(files(ctx, mods, ctx.pick('usual', [' ', '\n']))) as d:
        show(ctx, **{n: open(os.path.join(d, n + '.yang')).read()
                     for n in mods})
        k = compiler(ctx, d)
        for n in ('n', 'm'):
            k.compile(n)
        bad = [e for e in k.pyang_errors if 'UNUSED' not in e[1]]
        ctx.check(not bad, 'valid YANG is not accepted: %s' % bad)
        for path, x, via in (
                ('/m:c', c, None), ('/m:c/m:a', c.subs[0], None),
                ('/m:c/m:z', g.subs[0], uses), ('/m:c/m:w', g.subs[1], uses),
                ('/m:c/m:w/m:v', g.subs[1].subs[0], uses),
                (to, added, None)):
            st = k.context.get_statement('m', path)
            ctx.check(st is not None, 'no statement')
            p = st.pos
            where = os.path.join(d, x.where[0] + '.yang')
            ctx.check((st.keyword, st.arg) == (x.keyword, x.arg),
                      'another statement')
            ctx.check(p.ref == where, 'wrong file')
            ctx.check((p.first_line, p.last_line) == x.where[1:],
                      'wrong place')
            ctx.check(p.top is k.context.get_module(x.where[0]) or
                      p.top.arg == x.where[0], 'wrong module')
            label = '%s:%d' % (where, p.line)
            if via is not None:
                ctx.check(p.uses_pos is not None and
                          (p.uses_pos.first_line, p.uses_pos.last_line) ==
                          via.where[1:], 'wrong place of uses')
                label = '%s (at %s)' % (p.uses_pos, label)
                ctx.check(str(p.uses_pos) == '%s:%d' % (
                    os.path.join(d, 'm.yang'), p.uses_pos.line),
                    'wrong label of uses')
            else:
                ctx.check(p.uses_pos is None, 'not in a grouping')
            ctx.check(str(p) == label, 'wrong label')


BAD = {
    'unknown type': (lambda: leaf('q'), 'TYPE_NOT_FOUND'),
    'no key': (lambda: S('list', 'q', S('key', 'nokey'), leaf('k')),
               'BAD_KEY'),
    'no grouping': (lambda: S('uses', 'nope'), 'GROUPING_NOT_FOUND'),
    'no type': (lambda: S('leaf', 'q', S('description', 'x')),
                'EXPECTED_KEYWORD'),
}


def wrong(ctx, env):
    """what is wrong is told with its place"""
    kind = raw(ctx.pick('kind', sorted(BAD)))
    new, tag = BAD[kind]
    x = at = new()
    if kind == 'unknown type':
        x.subs[0].arg = 'nope'
        at = x.subs[0]
    if kind == 'no key':
        at = x.subs[0]
    c = S('container', 'c', leaf('a'), leaf('b'))
    c.subs.insert(ctx.choice('position', 3), x)
    s = S('module', 'm', *(header('m') + [c]))
    n = len(list(tokens(s)))
    text = write('m', s, gaps(ctx, n, 'm', ['\n\n', ' /* { */ ']),
                 ARGS['bare'])
    with folder({'m': text}) as d:
        show(ctx, text=text)
        k = compiler(ctx, d)
        try:
            k.compile('m')
        except Exception:
            pass
        es = [e for e in k.pyang_errors if 'UNUSED' not in e[1]]
        show(ctx, errors=[(str(p), t) for p, t, a in es])
        ctx.check(es and es[0][1].startswith(tag), 'no error')
        p = es[0][0]
        ctx.check(p.ref == os.path.join(d, 'm.yang') and
                  at.where[1][0] <= p.line <= at.where[2][0],
                  'wrong place of an error')
        ctx.check(str(p) == '%s:%d' % (p.ref, p.line), 'wrong label')


QUOTES = ['"%s"', "'%s'"]


def version(ctx, env):
    """YANG 1.1 refuses escapes that YANG 1 takes as they are"""
    v = raw(ctx.pick('version', ['', '1', '1.1']))
    q = raw(ctx.pick('quotes', QUOTES))
    t = raw(ctx.pick('text', ['a\\d', 'a\\\\', 'a\\n', 'a\\"b', 'a"b',
                         "a'b"]))
    if q[0] == "'":
        ctx.assume("'" not in t)
    if q[0] == '"':
        ctx.assume('"' not in t.replace('\\"', ''))
    text = 'module m { %snamespace "urn:m"; prefix m; revision 2024-01-01 ' \
        '{ description %s; } leaf a { type string; } }' % (
            'yang-version %s; ' % v if v else '', q % t)
    want = t
    if q[0] == '"':
        want = t.replace('\\\\', '\0').replace('\\n', '\n') \
            .replace('\\"', '"').replace('\0', '\\')
    bad = v == '1.1' and q[0] == '"' and 'd' in t
    with folder({'m': text}) as d:
        show(ctx, text=text)
        k = compiler(ctx, d)
        try:
            k.compile('m')
        except Exception:
            # there is no module
            ctx.check(bad, 'valid YANG is not accepted')
        es = [e for e in k.pyang_errors if not e[1].endswith('_WARN')]
        show(ctx, errors=es)
        ctx.check(bool(es) is bad, 'YANG is not taken by its version')
        if not bad:
            st = k.context.get_statement('m')
            r = st.search_one('revision').search_one('description')
            ctx.check(r.arg == want, 'wrong argument')


SCENARIOS = [
    Scenario('lines', lines, '1 module with 20 statements, 7 separators at '
             'any place, 3 elsewhere, 7 ways to write arguments'),
    Scenario('used', used, '2 modules and a submodule, statements of '
             'groupings and augments in any of them, 2 separators at any '
             'place'),
    Scenario('wrong', wrong, '4 kinds of bad statements at 3 places, 2 '
             'separators at any place'),
    Scenario('version', version, 'YANG 1 and 1.1, 6 strings, 2 quotes'),
]
