"""Defaults: what is left out of a config is what the schema implies."""
from lxml import etree
from symex.ctx import Domain
from symex.runner import Scenario
from . import dev, lib
from .common import CONFIG_MODULES, LIBXML, CHARS, show

MODULES = CONFIG_MODULES + ['ncdiff.model']
ASSUMPTIONS = [
    'One generated module: a container around two levels of non-presence or '
    'presence containers, list entries (also with a default on the key), '
    'default and other cases, and shorthand cases; leaf x has default 0, y '
    'has none, leaf-list z has two.', CHARS, LIBXML]
NS = 'urn:d'
TEXT = Domain('printable ASCII and some more', 32, 255,
              exclude=''.join(map(chr, range(127, 161))))


class S(object):
    """schema node"""

    def __init__(self, kind, name, *kids, **kw):
        self.kind, self.name, self.kids = kind, name, kids
        self.default = kw.get('default')
        self.presence = kw.get('presence', False)
        self.user = kw.get('user', False)
        self.keydef = kw.get('keydef', False)

    def text(self):
        t = '%s %s { ' % (self.kind, self.name)
        if self.kind in ('leaf', 'leaf-list'):
            t += 'type string; '
        if self.kind == 'list':
            t += 'key k; leaf k { type string; %s } ' % (
                'default "0";' if self.keydef else '')
        if self.presence:
            t += 'presence "p"; '
        if self.user:
            t += 'ordered-by user; '
        for d in [self.default] if isinstance(self.default, str) else \
                self.default or []:
            t += 'default "%s"; ' % d
        return t + ' '.join(k.text() for k in self.kids) + ' }'


def leafs(i):
    n = str(i)
    return [S('leaf', 'x' + n, default='0'), S('leaf', 'y' + n)]


def wrap(how, i, kids):
    n = 'w%d' % i
    if how == 'container':
        return S('container', n, *kids)
    if how == 'presence':
        return S('container', n, *kids, presence=True)
    if how == 'list':
        return S('list', n, *kids)
    if how == 'key default':
        return S('list', n, *kids, keydef=True)
    other = S('case', 'o%d' % i, S('leaf', 'p%d' % i))
    if how == 'default case':
        return S('choice', n, S('case', 'c%d' % i, *kids), other,
                 default='c%d' % i)
    if how == 'case':
        return S('choice', n, S('case', 'c%d' % i, *kids), other)
    if how == 'other case':
        return S('choice', n, S('case', 'c%d' % i, *kids), other,
                 default='o%d' % i)
    # shorthand: the case is the container
    return S('choice', n, S('container', 'c%d' % i, *kids), other,
             default='c%d' % i)


WRAPS = ['container', 'presence', 'list', 'key default', 'default case',
         'case', 'other case', 'shorthand']
cache = {}


def universe(key, schema):
    """device with container top { schema }"""
    if key not in cache:
        text = ('module d { namespace "%s"; prefix d; revision 2024-01-01; '
                '%s }' % (NS, schema.text()))
        cache[key] = dev.make(names=('d',), files={'d.yang': text})
    return cache[key]


def setup():
    return None


# -- data: {name: value | [values] | {..} | [(key, {..})]} -------------------
def gen(ctx, side, kids, many=False):
    """any content"""
    out = {}
    for s in kids:
        n = '%s.%s' % (side, s.name)
        if s.kind == 'leaf':
            if ctx.bool(n + '?'):
                out[s.name] = ctx.str(n)
        elif s.kind == 'leaf-list':
            k = ctx.choice(n + ' values', 4)
            vs = [ctx.str('%s%d' % (n, i)) for i in range(k)]
            for i in range(k):
                for j in range(i):
                    ctx.assume(lib.s_not(lib.val_eq(vs[i], vs[j])))
            if vs:
                out[s.name] = vs
        elif s.kind == 'container':
            if ctx.bool(n + '?'):
                out[s.name] = gen(ctx, side, s.kids)
        elif s.kind == 'list':
            if ctx.bool(n + '?'):
                out[s.name] = (ctx.str(n + '.k'), gen(ctx, side, s.kids))
        elif s.kind == 'choice':
            c = ctx.pick(n, [None] + [c.name for c in s.kids])
            for k in s.kids:
                if k.name == c:
                    out.update(gen(ctx, side, k.kids if k.kind == 'case'
                                   else [k]))
    return out


def write(parent, data, kids):
    q = '{%s}' % NS
    for s in kids:
        if s.kind == 'choice':
            for c in s.kids:
                write(parent, data, c.kids if c.kind == 'case' else [c])
        elif s.name not in data:
            continue
        elif s.kind == 'leaf':
            etree.SubElement(parent, q + s.name).text = data[s.name]
        elif s.kind == 'leaf-list':
            for v in data[s.name]:
                etree.SubElement(parent, q + s.name).text = v
        elif s.kind == 'container':
            write(etree.SubElement(parent, q + s.name), data[s.name], s.kids)
        else:
            e = etree.SubElement(parent, q + s.name)
            k, d = data[s.name]
            etree.SubElement(e, q + 'k').text = k
            write(e, d, s.kids)


def read(parent, kids):
    q, out = '{%s}' % NS, {}
    for s in kids:
        if s.kind == 'choice':
            for c in s.kids:
                out.update(read(parent, c.kids if c.kind == 'case' else [c]))
            continue
        es = parent.findall(q + s.name)
        if not es:
            continue
        if s.kind == 'leaf':
            out[s.name] = es[0].text or ''
        elif s.kind == 'leaf-list':
            out[s.name] = [e.text or '' for e in es]
        elif s.kind == 'container':
            out[s.name] = read(es[0], s.kids)
        else:
            k = es[0].find(q + 'k')
            out[s.name] = (None if k is None else k.text or '',
                           read(es[0], s.kids))
    return out


def full(data, kids):
    """with all defaults that are in use (RFC 7950, 7.6.1, 7.7.2, 7.9.3)"""
    out = {}
    for s in kids:
        if s.kind == 'choice':
            use = None
            for c in s.kids:
                ks = c.kids if c.kind == 'case' else [c]
                if any(there(data, k) for k in ks):
                    use = ks
            if use is None and s.default:
                c = [c for c in s.kids if c.name == s.default][0]
                use = c.kids if c.kind == 'case' else [c]
            if use is not None:
                out.update(full(data, use))
        elif s.kind in ('leaf', 'leaf-list'):
            if s.name in data:
                out[s.name] = data[s.name]
            elif s.default is not None:
                out[s.name] = s.default
        elif s.kind == 'container':
            if not s.presence:
                d = full(data.get(s.name, {}), s.kids)
                if d:
                    out[s.name] = d
            elif s.name in data:
                out[s.name] = full(data[s.name], s.kids)
        elif s.name in data:
            k, d = data[s.name]
            out[s.name] = (k, full(d, s.kids))
    return out


def there(data, s):
    """exists; a non-presence container does when something in it does"""
    if s.kind == 'choice':
        return any(there(data, k) for c in s.kids
                   for k in (c.kids if c.kind == 'case' else [c]))
    if s.name not in data:
        return False
    if s.kind == 'container' and not s.presence:
        return any(there(data[s.name], k) for k in s.kids)
    return True


def equal(a, b, kids):
    """condition under which two full data trees are the same"""
    if set(a) != set(b):
        return False
    cs = []

    def walk(kids):
        for s in kids:
            if s.kind == 'choice':
                for c in s.kids:
                    walk(c.kids if c.kind == 'case' else [c])
            elif s.name not in a:
                continue
            else:
                x, y = a[s.name], b[s.name]
                if s.kind == 'leaf':
                    cs.append(lib.val_eq(x, y))
                elif s.kind == 'leaf-list':
                    if len(x) != len(y):
                        cs.append(False)
                    elif s.user:
                        cs.extend(lib.val_eq(v, w) for v, w in zip(x, y))
                    else:
                        cs.extend(lib.s_or([lib.val_eq(v, w) for w in y])
                                  for v in x)
                elif s.kind == 'container':
                    cs.append(equal(x, y, s.kids))
                else:
                    cs.append(lib.val_eq(x[0], y[0]) if x[0] is not None
                              and y[0] is not None else False)
                    cs.append(equal(x[1], y[1], s.kids))
    walk(kids)
    return lib.s_and(cs)


def hidden(data, kids, inside=False):
    """a default value in a case that is not the default one (finding
    C23-case)"""
    cs = []
    for s in kids:
        if s.kind == 'choice':
            for c in s.kids:
                cs.append(hidden(data, c.kids if c.kind == 'case' else [c],
                                 inside or c.name != s.default))
        elif s.name not in data:
            continue
        elif s.kind == 'leaf' and s.default is not None and inside:
            cs.append(lib.val_eq(data[s.name], s.default))
        elif s.kind == 'leaf-list' and s.default is not None and inside:
            cs.append(True)
        elif s.kind == 'container':
            cs.append(hidden(data[s.name], s.kids,
                             inside and not s.presence))
        elif s.kind == 'list':
            cs.append(hidden(data[s.name][1], s.kids, False))
    return lib.s_or(cs)


def make(env, top, data, parse=False):
    from ncdiff.config import Config
    r = etree.Element('{%s}config' % lib.NC)
    if data is not None:
        write(etree.SubElement(r, '{%s}top' % NS), data, top.kids)
    if parse:
        r = etree.fromstring(etree.tostring(r, encoding='unicode'))
    return Config(env, r)


def nested(ctx, w1, w2):
    inner = wrap(w2, 2, leafs(2))
    return S('container', 'top', wrap(w1, 1, leafs(1) + [inner]))


def trim(ctx, env, first):
    """a config has the same effective data as the XML it is made of, and two
    configs are equal exactly when their effective data are"""
    second = ctx.pick('inner', WRAPS)
    top = nested(ctx, first, second)
    d = universe((first, second), top)
    same(ctx, d, top)


def same(ctx, d, top):
    a = gen(ctx, 'A', top.kids)
    fa = full(a, top.kids)
    ctx.region('C23-case', hidden(a, top.kids))
    A = make(d, top, a)
    t = A.ele.find('{%s}top' % NS)
    got = full(read(t, top.kids) if t is not None else {}, top.kids)
    show(ctx, schema=top.text(), data=a, config=A, want=fa, got=got)
    ctx.check(equal(fa, got, top.kids), 'the config means other data')
    # the same data with all defaults spelled out, or none
    E = make(d, top, fa)
    ctx.check(A == E, 'explicit defaults make a difference')
    ctx.check(not (A - E), 'a delta between a config and the same with '
              'explicit defaults')


def two(ctx, env, how):
    """two configs are equal exactly when they mean the same"""
    top = S('container', 'top', wrap(how, 1, leafs(1)))
    d = universe((how,), top)
    a, b = gen(ctx, 'A', top.kids), gen(ctx, 'B', top.kids)
    ctx.region('C23-case', lib.s_or([hidden(a, top.kids),
                                     hidden(b, top.kids)]))
    A, B = make(d, top, a), make(d, top, b)
    show(ctx, schema=top.text(), A=A, B=B)
    want = equal(full(a, top.kids), full(b, top.kids), top.kids)
    ctx.check(want if A == B else lib.s_not(want), 'equality is not that of the data')


def leaflists(ctx, env, user):
    """default values of leaf-lists"""
    ds = ctx.pick('defaults', [['0'], ['0', '1'], ['1', '0'], ['0', '1', '2'],
                               ['0,1'], ['0', '1,2'], [',']])
    how = ctx.pick('in', ['container', 'presence', 'list', 'default case',
                          'other case'])
    top = S('container', 'top', wrap(how, 1, [
        S('leaf-list', 'z', default=ds, user=user), S('leaf', 'y')]))
    d = universe(('z', tuple(ds), how, user), top)
    if any(',' in x for x in ds):
        ctx.region('C23-comma', True)
    same(ctx, d, top)


def same_names(ctx, env, how):
    """the same names at two levels, with other defaults"""
    kids = [S('leaf', 'v', default='0'),
            S('leaf-list', 'u', default=['0', '1'])]
    low = [S('leaf', 'v', default='2'), S('leaf-list', 'u', default=['1'])]
    top = S('container', 'top', *(kids + [wrap(how, 1, [
        S('leaf', 'x', default='1'), S('container', 'z', *low)])]))
    d = universe(('names', how), top)
    same(ctx, d, top)


def texts(ctx, env, kind):
    """values that look like a default"""
    ds = ctx.pick('default', ['0', ' 0', '0 ', '', 'a', 'A', '00', 'true',
                              'a b', 'é'])
    top = S('container', 'top', S(kind, 'z', default=ds), S('leaf', 'y'))
    d = universe(('texts', kind, ds), top)
    v = ctx.str('z', ctx.choice('length', 5), TEXT)
    a = {'z': v if kind == 'leaf' else [v]}
    A = make(d, top, a, parse=ctx.bool('parse'))
    t = A.ele.find('{%s}top' % NS)
    got = read(t, top.kids) if t is not None else {}
    show(ctx, schema=top.text(), data=a, config=A)
    is_default = lib.val_eq(v, ds)
    if got:
        w = got['z'] if kind == 'leaf' else got['z'][0]
        ctx.check(lib.s_and([lib.s_not(is_default), lib.val_eq(w, v)]),
                  'a default value is kept, or another value changes')
    else:
        ctx.check(is_default, 'a value that is no default is lost')


def implied(kids):
    """own reading of default_in_use: names of schema nodes"""
    out = []
    for s in kids:
        if s.kind in ('leaf', 'leaf-list'):
            if s.default is not None:
                out.append(s.name)
        elif s.kind == 'choice':
            for c in s.kids:
                if s.default == c.name:
                    out.append(c.name)
                    out += implied(c.kids if c.kind == 'case' else [c])
        elif s.kind == 'container' and not s.presence:
            out += implied(s.kids)
    return out


def in_use(ctx, env):
    """default_in_use of any node"""
    w1, w2 = ctx.pick('outer', WRAPS), ctx.pick('inner', WRAPS)
    if ctx.bool('one each'):
        top = S('container', 'top', wrap(w1, 1, [
            wrap(w2, 2, [S('leaf', 'x', default='0')])]))
        d = universe((w1, w2, 'lean'), top)
    else:
        top = nested(ctx, w1, w2)
        d = universe((w1, w2), top)
    tree = d.models['d'].tree
    seen = 0
    todo = [top]
    while todo:
        s = todo.pop()
        todo += s.kids
        if s.kind in ('leaf', 'leaf-list', 'choice'):
            continue
        node = [e for e in tree.iter('{%s}%s' % (NS, s.name))
                if e.get('type') == s.kind]
        ctx.check(len(node) == 1, 'schema node')
        got = [e.tag.split('}')[1] for e in d.default_in_use(node[0])]
        show(ctx, schema=top.text(), node=s.name, got=got,
             want=implied(s.kids))
        ctx.check(sorted(got) == sorted(implied(s.kids)),
                  'default_in_use is wrong')
        seen += 1


def known_case(ctx, env):
    top = S('container', 'top', wrap('case', 1, leafs(1)))
    d = universe(('case',), top)
    v = ctx.str('x')
    ctx.region('C23-case', lib.val_eq(v, '0'))
    A = make(d, top, {'x1': v})
    ctx.check(bool(A), 'the case is lost')


def known_comma(ctx, env):
    top = S('container', 'top', S('leaf-list', 'z', default=['0,1']),
            S('leaf', 'y'))
    d = universe(('known comma',), top)
    a = {'z': [ctx.str('z0'), ctx.str('z1')]}
    ctx.assume(lib.s_not(lib.val_eq(*a['z'])))
    A = make(d, top, a)
    ctx.region('C23-comma', True)
    ctx.check(bool(A), 'values are lost')


def types(ctx, v, body, finding):
    """the default of leaf z, or anything else"""
    from ncdiff.config import Config
    text = ('module d { namespace "%s"; prefix d; revision 2024-01-01; '
            'identity base; identity i { base base; } identity j { base base;'
            ' } typedef t { type string; default "0"; } container top { %s '
            '} }' % (NS, body))
    if body not in cache:
        cache[body] = dev.make(names=('d',), files={'d.yang': text})
    d = cache[body]

    def conf(v, **ns):
        r = etree.Element('{%s}config' % lib.NC)
        t = etree.SubElement(r, '{%s}top' % NS, nsmap=dict(ns))
        if v is not None:
            etree.SubElement(t, '{%s}z' % NS).text = v
        return Config(d, r)
    A, B = conf(v, d=NS), conf(None, d=NS)
    default = v == '0' if finding == 'C23-type' else v in ('i', 'd:i')
    ctx.region(finding, True)
    show(ctx, A=A, B=B)
    ctx.check((A == B) == default, 'a default of a type makes a difference')


def known_type(ctx, env):
    types(ctx, ctx.pick('z', ['0', '1']), 'leaf z { type t; }', 'C23-type')


def known_identity(ctx, env):
    types(ctx, ctx.pick('z', ['i', 'j', 'd:i', 'd:j']),
          'leaf z { type identityref { base base; } default i; }',
          'C23-identity')


SCENARIOS = [Scenario('trim ' + w, trim, 'two levels, 8 kinds inside, any '
                      'content', first=w) for w in WRAPS]
SCENARIOS += [Scenario('two ' + w, two, 'one level, any two contents', how=w)
              for w in WRAPS]
SCENARIOS += [
    Scenario('leaf-list', leaflists, '7 sets of defaults, <=3 values',
             user=False),
    Scenario('user leaf-list', leaflists, '7 sets of defaults, <=3 values',
             user=True),
]
SCENARIOS += [Scenario('same names ' + w, same_names, 'two levels', how=w)
    for w in ('container', 'presence', 'list', 'default case')]
SCENARIOS += [
    Scenario('text', texts, '10 defaults, values of <=4 characters',
             kind='leaf'),
    Scenario('text leaf-list', texts, '10 defaults, values of <=4 characters',
             kind='leaf-list'),
    Scenario('in use', in_use, '128 schemas, every node'),
    Scenario('known_case', known_case, 'one leaf'),
    Scenario('known_comma', known_comma, 'two values'),
    Scenario('known_type', known_type, 'default of a typedef'),
    Scenario('known_identity', known_identity, 'default of an identityref'),
]
