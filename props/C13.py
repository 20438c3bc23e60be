"""The diff of two models reports exactly what differs."""
import re
from lxml import etree
from symex.ctx import NAME
from symex.runner import Scenario
from symex.symstr import raw, SymStr

MODULES = ['ncdiff.model']
ASSUMPTIONS = [
    'Models are schema trees as the compiler makes them (tag, attributes, '
    'children), with unique tags among siblings.']
M, O = 'urn:m', 'urn:o'


class N(object):
    """schema node"""
    def __init__(self, name, type, ns=M, kids=(), **attrs):
        self.name, self.type, self.ns = name, type, ns
        self.attrs = dict(attrs, type=type)
        self.kids = [k for k in kids if k is not None]

    @property
    def tag(self):
        return '{%s}%s' % (self.ns, self.name)


def setup():
    return None


def model(nodes, prefix='o', reverse=False, own='m'):
    from ncdiff.model import Model
    t = etree.Element('m')
    t.set('type', 'module')
    t.set('prefix', own)
    for p, u in ((own, M), (prefix, O)):
        n = etree.SubElement(t, 'namespace')
        n.set('prefix', p)
        n.text = u

    def add(parent, nodes):
        for x in (reversed(nodes) if reverse else nodes):
            e = etree.SubElement(parent, x.tag)
            for k, v in x.attrs.items():
                if v is not None:
                    e.set(k.replace('_', '-') if k != 'is_key' else k, v)
            add(e, x.kids)
    add(t, nodes)
    return Model(t)


def same(v, w):
    if v is None or w is None:
        return v is w
    return bool(v == w)


def merged(old, new):
    """{tag: (mark, kids)} of what differs"""
    out = {}
    for x in new:
        y = [k for k in old if k.tag == x.tag]
        if not y:
            out[x.tag] = ('added', merged([], x.kids))
            continue
        y = y[0]
        keys = set(x.attrs) | set(y.attrs)
        mark = 'modified' if not all(
            same(x.attrs.get(k), y.attrs.get(k)) for k in keys) else ''
        kids = merged(y.kids, x.kids)
        if mark or kids:
            out[x.tag] = (mark, kids)
    for y in old:
        if not [k for k in new if k.tag == y.tag]:
            out[y.tag] = ('deleted', merged(y.kids, []))
    return out


def only(tree, mark):
    out = {}
    for k, (m, kids) in tree.items():
        sub = only(kids, mark)
        if m == mark or sub:
            out[k] = (m, sub)
    return out


LINE = re.compile(r'^( (?:[ |]  )*)\+--([^ :]*) ?:?\(?([^\s?*)]+)')


def parse(ctx, s, prefix1, prefix2):
    """the tree that a view shows"""
    root = {}
    if s is None:
        return root
    stack = [(-1, root)]
    for line in raw(s).split('\n'):
        if not line.strip() or line.startswith('module: ') or \
                line in ('  rpcs:', '  notifications:'):
            continue
        m = LINE.match(line)
        ctx.check(m is not None, 'a line of the view cannot be read')
        if m is None:
            return root
        depth = len(m.group(1))
        mark = ''
        for w in ('added', 'deleted', 'modified'):
            if line.endswith(' ' + w):
                mark = w
        name = m.group(3)
        if ':' in name:
            p, name = name.split(':')
            want = prefix2 if mark == 'added' else prefix1
            ctx.check(p == want, 'prefix of a node')
            tag = '{%s}%s' % (O, name)
        else:
            tag = '{%s}%s' % (M, name)
        while stack[-1][0] >= depth:
            stack.pop()
        ctx.check(tag not in stack[-1][1], 'a node is shown twice')
        kids = {}
        stack[-1][1][tag] = (mark, kids)
        stack.append((depth, kids))
    return root


def check(ctx, a, b, prefix2='o', reverse=False):
    from ncdiff.model import ModelDiff
    m1, m2 = model(a), model(b, prefix2, reverse)
    s1, s2 = etree.tostring(m1.tree), etree.tostring(m2.tree)
    d = ModelDiff(m1, m2)
    if not ctx.symbolic:
        ctx.note('model1:\n%s\nmodel2:\n%s\ndiff:\n%s\nadded:\n%s\n'
                 'deleted:\n%s\nmodified:\n%s' % (
                     m1, m2, d, d.added, d.deleted, d.modified))
    want = merged(a, b)
    ctx.check(bool(d) == bool(want), 'the diff is empty although the models '
              'differ, or the other way round')
    ctx.check(parse(ctx, str(d), 'o', prefix2) == want, 'what str shows')
    for mark in ('added', 'deleted', 'modified'):
        v = getattr(d, mark)
        w = only(want, mark)
        ctx.check((v is None) == (not w), mark + ' is None or not')
        ctx.check(parse(ctx, v, 'o', prefix2) == w,
                  mark + ' lacks a node or has one too many')
    ctx.check(parse(ctx, str(d), 'o', prefix2) == want,
              'a view changes the diff')
    ctx.check((etree.tostring(m1.tree), etree.tostring(m2.tree)) == (s1, s2),
              'the models have changed')
    ctx.check(not ModelDiff(m1, m1) and not ModelDiff(m1, model(a)),
              'a model differs from itself')


def leaf(ctx, side, name, type='leaf', ns=M, **kw):
    if not ctx.bool('%s.%s' % (side, name)):
        return None
    return N(name, type, ns, access='read-write', datatype=ctx.str(
        '%s.%s type' % (side, name), 1, NAME), **kw)


def inner(ctx, env):
    """attributes and children of an inner node"""
    def one(side):
        kind = ctx.pick('kind', ['container', 'list', 'choice', 'case'])
        attr = {'container': 'presence', 'list': 'key', 'choice':
                'mandatory', 'case': 'if_feature'}[kind]
        val = ctx.pick(side + '.attr', [None, 'true', 'x'])
        return [N('a', kind, access='read-write', kids=[
            leaf(ctx, side, 'x'), leaf(ctx, side, 'y', 'leaf-list')],
            **{attr: val})]
    check(ctx, one('A'), one('B'), reverse=ctx.bool('reverse'))


def rpcs(ctx, env):
    """rpcs and notifications"""
    def one(side):
        out = []
        if ctx.bool(side + '.rpc'):
            out.append(N('r', 'rpc', access='write', kids=[
                N('input', 'input', access='write',
                  kids=[leaf(ctx, side, 'i')]),
                N('output', 'output', access='read-only',
                  kids=[leaf(ctx, side, 'o')])]))
        if ctx.bool(side + '.notification'):
            out.append(N('n', 'notification', access='read-only',
                         kids=[leaf(ctx, side, 'j')]))
        return out
    check(ctx, one('A'), one('B'))


KINDS = ['leaf', 'leaf-list', 'container', 'list', 'anyxml', 'choice']


def kinds(ctx, env):
    """nodes that change their kind"""
    def one(side):
        kind = ctx.pick(side + '.kind', KINDS)
        kids = []
        if kind in ('container', 'list', 'choice'):
            kids = [leaf(ctx, side, 'x')]
        return [N('a', 'container', access='read-write', kids=[
            N('b', kind, access=ctx.pick(side + '.access', [
                'read-write', 'read-only']), kids=kids)])]
    check(ctx, one('A'), one('B'))


def deep(ctx, env):
    """subtrees that come and go"""
    def one(side):
        out = []
        if ctx.bool(side + '.a'):
            out.append(N('a', 'container', access='read-write', kids=[
                N('c', 'choice', access='read-write', kids=[
                    N('k', 'case', kids=[leaf(ctx, side, 'x')])])
                if ctx.bool(side + '.c') else None]))
        out.append(leaf(ctx, side, 'z'))
        return [x for x in out if x]
    check(ctx, one('A'), one('B'))


def spaces(ctx, env):
    """nodes of other modules with the same names"""
    def one(side):
        return [N('a', 'container', access='read-write', kids=[
            leaf(ctx, side, 'x'),
            N('x', 'leaf', O, access='read-write', datatype='string')
            if ctx.bool(side + '.o:x') else None])]
    check(ctx, one('A'), one('B'), prefix2=ctx.pick('prefix', ['o', 'q']))


def attributes(ctx, env):
    """every attribute of a leaf counts, with any value"""
    attr = ctx.pick('attribute', ['access', 'mandatory', 'presence', 'values',
                                  'key', 'is_key', 'datatype', 'if_feature',
                                  'ordered_by', 'default', 'status',
                                  'unionmembertypes'])

    def one(side):
        v = None
        if ctx.bool(side + '.has'):
            v = ctx.str(side + '.value', ctx.pick(side + '.len', [0, 1, 2]),
                        NAME)
        kw = {attr: v}
        return [N('a', ctx.pick('kind', ['leaf', 'container', 'list']),
                  **kw)]
    check(ctx, one('A'), one('B'))


def render(nodes, prefix, depth=1):
    """tokens of every line: (depth, flags and name, datatype, feature)"""
    out = []
    for x in nodes:
        a = x.attrs
        name = x.name if x.ns == M else prefix + ':' + x.name
        flag = {'rpc': '-x', 'notification': '-n'}.get(
            x.type, {'write': '-w', 'read-write': 'rw', 'read-only': 'ro'}.get(
                a.get('access'), ''))
        opt = '' if a.get('mandatory') == 'true' else '?'
        if x.type == 'case':
            t = [':(%s)' % name]
        elif x.type == 'choice':
            t = [flag, '(%s)%s' % (name, opt)]
        elif x.type in ('leaf', 'anyxml', 'anydata'):
            t = [flag, name + opt]
        elif x.type == 'leaf-list':
            t = [flag, name + '*']
        elif x.type == 'list':
            t = [flag, name + '*']
            if a.get('key') is not None:
                t.append('[%s]' % raw(a['key']))
        else:
            t = [flag, name]
        if x.type in ('anyxml', 'anydata'):
            t.append('<%s>' % x.type)
        elif a.get('datatype') is not None:
            t.append(raw(a['datatype']))
        if a.get('if_feature') is not None:
            t.append('{%s}?' % raw(a['if_feature']))
        out.append((depth, ' '.join(t)))
        out += render(x.kids, prefix, depth + 1)
    return out


def printed(ctx, env):
    """str of a model shows every node once, in its place"""
    def one(kind, name, kids=()):
        if not ctx.bool('has ' + name):
            return None
        kw = dict(access=ctx.pick(name + '.access', [
            'write', 'read-write', 'read-only']))
        if kind in ('leaf', 'leaf-list'):
            kw['datatype'] = ctx.str(name + '.type', 1, NAME)
        if kind in ('leaf', 'choice', 'anyxml') and ctx.bool(
                name + '.mandatory'):
            kw['mandatory'] = 'true'
        if kind == 'list':
            kw['key'] = ctx.str(name + '.key', 1, NAME)
        if kind == 'leaf' and ctx.bool(name + '.feature'):
            kw['if_feature'] = ctx.pick('features', ['f', 'f g'])
        return N(name, kind, M if name != 'o' else O, kids, **kw)
    at = ctx.choice('place', 4)
    what = one(ctx.pick('kind', ['leaf', 'leaf-list', 'list', 'choice',
                                 'anyxml', 'anydata', 'container']),
               ctx.pick('name', ['n', 'o']))
    z = N('z', 'leaf', access='read-write', datatype='string')
    nodes = [
        N('c', 'container', access='read-write',
          kids=[z, what if at == 0 else None]),
        what if at == 1 else None,
        N('r', 'rpc', access='write', kids=[
            N('input', 'input', access='write',
              kids=[what if at == 2 else None])]),
        N('t', 'notification', access='read-only',
          kids=[what if at == 3 else None, z])]
    nodes = [x for x in nodes if x]
    if ctx.bool('other order'):
        nodes.reverse()
    own, other = ctx.pick('prefixes', [
        ('m', 'o'), ('a.b', 'axb'), ('a.b', 'a'), ('o', 'oo'), ('x-y', 'x.y')])
    m = model(nodes, other, own=own)
    got = []
    s = str(m)
    if not ctx.symbolic:
        ctx.note(s)
    part, drawn = [], []
    lines = raw(s).split('\n')
    ctx.check(lines[0] == 'module: m', 'name of the module')
    section = ''
    for line in lines[1:]:
        if line in ('', '  rpcs:', '  notifications:'):
            section = line.strip() or section
            continue
        i = line.index('+--')
        part.append(((i - 1) // 3, ' '.join(line[i + 3:].split())))
        got.append(section)
        drawn.append((line[:i], line[i + 3:]))
    want, secs = [], []
    for kind, sec in ((None, ''), ('rpc', 'rpcs:'),
                      ('notification', 'notifications:')):
        r = render([x for x in nodes if (x.type == kind if kind else x.type
                    not in ('rpc', 'notification'))], other)
        want += r
        secs += [sec] * len(r)
    ctx.check(got == secs, 'sections of the tree')
    ctx.check([d for d, t in part] == [d for d, t in want], 'depth of nodes')
    for (d, t), (e, u) in zip(part, want):
        ctx.check(SymStr(t) == u if ctx.symbolic else t == u,
                  'a node is shown otherwise')
    # bars lead from every node down to its next sibling, and what follows
    # the names of siblings is aligned
    for n, (d, t) in enumerate(part):
        for k in range(1, d):
            c = drawn[n][0][1 + 3 * k]
            ctx.check(c == ('|' if above(part, got, n, k) else ' '),
                      'bars of the tree')
    cols = {}
    for n, (d, t) in enumerate(part):
        x = drawn[n][1]
        at = len(x) - len(x.split('  ')[-1].lstrip()) if '  ' in x else None
        if at is not None:
            up = max([k for k in range(n) if part[k][0] < d] or [-1])
            cols.setdefault(up, set()).add(at)
    ctx.check(all(len(v) == 1 for v in cols.values()), 'types of siblings '
              'are not aligned')
    ctx.check(str(m) == s, 'printing is not repeatable')


def above(part, got, n, k):
    """the ancestor of line n at depth k has a next sibling in its section"""
    for m in range(n + 1, len(part)):
        if got[m] != got[n] or part[m][0] < k:
            return False
        if part[m][0] == k:
            return True
    return False


def compare(ctx, env):
    """compare(xpath) tells everything of the node in both models"""
    from ncdiff.model import ModelDiff

    def one(side):
        kids = []
        if ctx.bool(side + '.has'):
            kw = {}
            for a in ('access', 'default', 'datatype'):
                if ctx.bool('%s.%s' % (side, a)):
                    kw[a] = ctx.str('%s.%s value' % (side, a), 1, NAME)
            kids = [N('x', 'leaf', ctx.pick('namespace', [M, O]), **kw)]
        return [N('a', 'container', access='read-write', kids=kids)]
    a, b = one('A'), one('B')
    d = ModelDiff(model(a), model(b))
    ns = ctx.pick('namespace', [M, O])
    path = ctx.pick('path', ['/m/m:a/%s:x', '//%s:x']) % \
        ('m' if ns == M else 'o')
    s = d.compare(path)
    if not ctx.symbolic:
        ctx.note(s)
    lines = raw(s).split('\n')
    i = [n for n, t in enumerate(lines) if t.startswith('-')]
    ctx.check(len(i) == 4 and lines[i[0] + 1] == "'%s'" % path and
              ' MODEL 1 ' in lines[i[1]] and ' MODEL 2 ' in lines[i[2]],
              'sections of a comparison')
    if len(i) != 4:
        return
    for nodes, part in ((a, lines[i[1] + 1:i[2]]), (b, lines[i[2] + 1:i[3]])):
        if not nodes[0].kids:
            ctx.check(part == ['None'], 'a node that a model does not have')
            continue
        x = nodes[0].kids[0]
        ctx.check(part[0] == "tag: '%s'" % x.tag, 'tag of a node')
        want = {k: v for k, v in x.attrs.items() if v is not None}
        ctx.check(len(part) == 3 + len(want), 'number of lines')
        for k, v in want.items():
            got = [t for t in part[3:] if t.startswith('  %s = ' % k)]
            ctx.check(len(got) == 1, 'an attribute is missing')
            if got:
                g = got[0][len(k) + 5:]
                w = "'" + v + "'"
                ctx.check(SymStr(g) == w if ctx.symbolic else g == w,
                          'value of an attribute')




def names(ctx, env):
    """different modules cannot be compared"""
    from ncdiff.model import Model, ModelDiff
    a = model([])
    t = etree.Element(ctx.pick('name', ['m', 'n', 'M', 'mm']))
    t.set('prefix', 'm')
    n = etree.SubElement(t, 'namespace')
    n.set('prefix', 'm')
    n.text = M
    try:
        d = ModelDiff(a, Model(t))
    except ValueError:
        ctx.check(t.tag != 'm', 'same module refused')
    else:
        ctx.check(t.tag == 'm' and not d, 'different modules accepted')


SCENARIOS = [
    Scenario('inner', inner, 'container, list, choice or case with one '
             'attribute and <=2 leafs per side; any order of children'),
    Scenario('rpcs', rpcs, '<=1 rpc with input and output, <=1 notification '
             'per side'),
    Scenario('kinds', kinds, 'a node of one of six kinds per side'),
    Scenario('deep', deep, 'container, choice, case, leaf: present or not'),
    Scenario('spaces', spaces, 'nodes with one name in two namespaces, '
             'prefix of the other module differs or not'),
    Scenario('attributes', attributes, 'one of 12 attributes, values of 0 to '
             '2 characters'),
    Scenario('names', names, 'names of the modules'),
    Scenario('compare', compare, 'a leaf that the models have or not, with '
             '<=3 attributes'),
    Scenario('printed', printed, 'a node of any kind, access, type at any '
             'place of a model'),
]
