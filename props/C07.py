"""A Config is the canonical form of its input, and input that is not a config
is rejected."""
from lxml import etree
from symex.runner import Scenario
from symex.symstr import raw
from symex.engine import s_and, s_or, s_not, s_iff
from . import lib, shapes
from .common import (CONFIG_MODULES as MODULES, ASSUME, setup, gen, config,
                     show)

ASSUMPTIONS = ASSUME + [
    'Canonical form (lib.normalise): no leaf or leaf-list that equals its '
    'schema default, no empty non-presence container, no list entry without '
    'content, no obsolete node (and no deprecated node on request).']


def drop_status(n, deprecated):
    out = lib.N(n.s, n.val)
    for k in n.kids:
        if k.s.status == 'obsolete' or \
                deprecated and k.s.status == 'deprecated':
            continue
        c = drop_status(k, deprecated)
        if (c.s.np or c.s.kind == 'list') and not c.kids:
            continue
        out.kids.append(c)
    return out


def forms(ctx, el):
    """the same config as element, string, get-config reply, with or without
    layout"""
    how = ctx.pick('form', ['element', 'string', 'pretty', 'data', 'reply',
                            'edit'])
    NC = lib.NC
    if how == 'string':
        return etree.tostring(el, encoding='unicode')
    if how == 'pretty':
        return etree.fromstring(etree.tostring(el, encoding='unicode',
                                               pretty_print=True))
    if how == 'element':
        return el
    if how == 'data':
        d = etree.Element('{%s}data' % NC, nsmap={None: NC})
        outer = d
    elif how == 'reply':
        outer = etree.Element('{%s}rpc-reply' % NC, nsmap={None: NC})
        outer.set('message-id', '1')
        d = etree.SubElement(outer, '{%s}data' % NC)
    else:
        outer = etree.Element('{%s}edit-config' % NC, nsmap={None: NC})
        t = etree.SubElement(outer, '{%s}target' % NC)
        etree.SubElement(t, '{%s}running' % NC)
        d = etree.SubElement(outer, '{%s}config' % NC)
    for c in list(el):
        d.append(c)
    if how == 'reply':
        from ncclient.operations.rpc import RPCReply

        r = RPCReply(etree.tostring(outer, encoding='unicode'))
        r._root = outer
        r._parsed = True
        return r
    return outer


def normal(ctx, env, shape):
    from ncdiff.config import Config
    t = gen(ctx, shape, 'A')
    want = lib.normalise(lib.from_etree(lib.to_etree(t)))
    src = forms(ctx, lib.to_etree(t))
    A = Config(env, src)
    show(ctx, A=A)
    got = lib.from_etree(A.ele)
    ctx.check(exact(got, drop_status(want, False)), 'not the canonical form')
    B = Config(env, A.xml)
    ctx.check(exact(lib.from_etree(B.ele), got), 'not idempotent')
    ctx.check((A == B) is True, 'Config(c.xml) differs from c')
    C = config(env, t)
    ctx.check((A == C) is True and (C == A) is True,
              'the form of the input matters')
    ctx.check(not (A - C) and not (C - A),
              'the form of the input makes a delta')


def exact(a, b):
    """equal including which nodes are present"""
    if a.s is not b.s:
        return False
    if a.s.kind in ('leaf', 'leaf-list'):
        return lib.val_eq(a.val, b.val)
    if len(a.kids) != len(b.kids):
        return False
    return s_and([exact(x, y) for x, y in zip(a.kids, b.kids)])


def remark(ctx, el, n=''):
    """a comment or processing instruction at any place of a config; the text
    of a leaf may go on after it"""
    nodes = list(el.iter('{*}*'))
    x = nodes[ctx.choice('in node' + n, len(nodes))]
    r = etree.Comment('c') if ctx.bool('comment' + n) else \
        etree.ProcessingInstruction('p', 'c')
    if len(x) == 0 and x.text is not None:
        more = ctx.str('more' + n)
        x.append(r)
        r.tail = more
        return x, x.text + more
    i = ctx.choice('at' + n, len(x) + 1)
    x.insert(i, r)
    if x.text is None and ctx.bool('blanks' + n):
        r.tail = ' '
    return None, None


def remarks(ctx, env, many):
    """comments and processing instructions are no data"""
    from ncdiff.config import Config, ConfigDelta
    t = lib.root()
    g = lib.Gen(ctx, 'A')
    top = t.add('vx:top')
    top.add('vx:a', g.s('a'))
    top.add('vx:in')
    top.add('vx:pr')
    e = top.add('vx:sl')
    e.add('vx:k', g.s('k'))
    e.add('vx:v', g.s('v'))
    if many:
        top.add('vx:lu', g.s('lu'))
    src = lib.to_etree(t)
    plain = lib.to_etree(t)
    how = ctx.pick('as', ['element', 'string', 'reply', 'add', 'delta'])
    for i in range(1 + many):
        x, val = remark(ctx, src, ' %d' % i)
        if x is not None:
            path = plain.getroottree().getpath
            same = [y for y in plain.iter()
                    if path(y) == src.getroottree().getpath(x)]
            same[0].text = val
    show(ctx, xml=etree.tostring(src), how=how)
    N = Config(env)
    if how == 'string':
        A = Config(env, etree.tostring(src, encoding='unicode'))
    elif how == 'reply':
        outer = etree.Element('{%s}rpc-reply' % lib.NC, nsmap={None: lib.NC})
        d = etree.SubElement(outer, '{%s}data' % lib.NC)
        for c in list(src):
            d.append(c)
        A = Config(env, outer)
    elif how == 'add':
        A = N + src
    elif how == 'delta':
        A = ConfigDelta(N, delta=src).config_dst
    else:
        A = Config(env, src)
    want = lib.normalise(lib.from_etree(plain))
    ctx.check(exact(lib.from_etree(A.ele), want), 'remarks change the config')


def results(ctx, env, shape):
    """results of + and of deltas are canonical as well"""
    from ncdiff.config import Config
    ta, tb = gen(ctx, shape, 'A'), gen(ctx, shape, 'B')
    A, B = config(env, ta), config(env, tb)
    show(ctx, A=A, B=B)
    for name, C in (('A + B', A + B), ('A + (B - A)', A + (B - A))):
        g = lib.from_etree(C.ele)
        ctx.check(exact(g, lib.normalise(g)), name + ' is not canonical')


def status(ctx, env):
    from ncdiff.config import Config
    t = lib.root()
    g = lib.Gen(ctx, 'A')
    top = t.add('vx:top')
    g.leaf(top, 'vx:old')
    g.leaf(top, 'vx:dep')
    if g.b('has oldc'):
        g.leaf(top.add('vx:oldc'), 'vx:x')
    g.leaf(top, 'vx:a')
    dep = ctx.bool('remove_deprecated')
    A = Config(env, lib.to_etree(t), remove_deprecated=dep)
    show(ctx, A=A)
    want = drop_status(lib.normalise(t), dep)
    ctx.check(exact(lib.from_etree(A.ele), want), 'obsolete or deprecated '
              'nodes')


# one thing that is not a config, at each place
def bad_key(t, ctx):
    e = t.kids[0].add('vx:s2')
    which = ctx.pick('missing key', ['vx:k1', 'vx:k2'])
    e.add('vx:k2' if which == 'vx:k1' else 'vx:k1', 'x')
    if ctx.bool('more'):
        e.add('vx:v', 'x')
    return lib.to_etree(t)


def bad_attr(t, ctx):
    el = lib.to_etree(t)
    nodes = [x for x in el.iter() if x is not el]
    x = nodes[ctx.choice('node', len(nodes))]
    a = ctx.pick('attribute', ['{%s}operation' % lib.NC,
                               '{%s}insert' % lib.YANG,
                               '{%s}value' % lib.YANG, '{%s}key' % lib.YANG])
    if ctx.bool('another attribute'):
        x.set('other', 'x')
    x.set(a, 'merge')
    return el


def bad_tag(t, ctx):
    el = lib.to_etree(t)
    x = [x for x in el.iter() if x.tag.rsplit('}')[1] in
         ('config', 'top', 'in', 'sl')]
    p = x[ctx.choice('parent', len(x))]
    tag = ctx.pick('tag', ['{urn:vx}nosuch', '{urn:vy}pr', '{urn:vx}one',
                           '{urn:vx}ch', '{urn:none}a', '{urn:vx}z'])
    etree.SubElement(p, tag).text = 'x'
    return el


def invalid(ctx, env, bad):
    from ncdiff.config import Config
    from ncdiff.errors import ConfigError, ModelMissing
    t = lib.root()
    g = lib.Gen(ctx, 'A')
    top = t.add('vx:top')
    top.add('vx:a', g.s('a'))
    top.add('vx:in').add('vx:x', g.s('x'))
    top.add('vx:ls', g.s('ls'))
    top.add('vx:pr')
    e = top.add('vx:sl')
    e.add('vx:k', g.s('k'))
    e.add('vx:v', g.s('v'))
    el = bad(t, ctx)
    show(ctx, config=etree.tostring(el, pretty_print=True).decode())
    try:
        Config(env, el)
    except (ConfigError, ModelMissing):
        return
    ctx.check(False, 'accepted as a config')


def np_empty(g, r):
    if g.b('has top'):
        t = r.add('vx:top')
        if g.b('has in'):
            i = t.add('vx:in')
            if g.b('has deep'):
                d = i.add('vx:deep')
                g.leaf(d, 'vx:z')
            g.leaf(i, 'vx:y')
        if g.b('has pr'):
            t.add('vx:pr')


def leaf_defaults(g, r):
    t = r.add('vx:top')
    g.leaf(t, 'vx:a')
    g.leaf(t, 'vx:b')
    g.leaf(t.add('vx:in'), 'vx:y')


def ll_defaults(g, r):
    t = r.add('vx:top')
    g.leaflist(t, 'vx:ld', 3)


def ll_user_defaults(g, r):
    t = r.add('vx:top')
    g.leaflist(t, 'vx:lud', 3)


def both_defaults(g, r):
    t = r.add('vx:top')
    g.leaflist(t, 'vx:ld', 2)
    g.leaflist(t, 'vx:lud', 2)


def lists(g, r):
    t = r.add('vx:top')

    def body(g, e, p):
        g.leaf(e, 'vx:v', p)
        if g.b(p + 'c'):
            g.leaf(e.add('vx:c'), 'vx:w', p)
    g.list(t, 'vx:sl', 1, body)
    if g.b('hollow'):
        t.add('vx:sl')
    g.list(t, 'vx:ul', 2)


def sc(name, shape, bounds, tier='quick', fn=normal, **kw):
    return Scenario(name, fn, bounds, tier, shape=shape, **kw)


SCENARIOS = [
    sc('np', np_empty, 'nested non-presence and presence containers, empty '
       'or not; six input forms'),
    sc('defaults', leaf_defaults, 'leaves with defaults'),
    sc('ll', ll_defaults, '<=3 leaf-list entries with defaults'),
    sc('ll_user', ll_user_defaults, '<=3 user ordered leaf-list entries with '
       'defaults'),
    sc('lists', lists, '<=1 sl{v, c{w}}, hollow entry, <=2 ul'),
    sc('nested', shapes.nested2, '<=2 nl{<=1 ul, <=1 lu}'),
    sc('clash', shapes.clash, 'vx:lu<=1, vy:lu, vx:b, vy:b<=1'),
    sc('clash2', shapes.clash2, 'vx:in{x}, vy:in<=2'),
    sc('clash_key', shapes.clash_key, '<=1 sl{vy:k}'),
    sc('names', shapes.names, 'rn{v, w<=1, rn{v, w<=1}}'),
    sc('modules', shapes.modules, 'two modules'),
    sc('choice', shapes.choice, 'choice'),
    sc('toplevel', shapes.toplevel, 'top level leaf and leaf-list'),
    sc('id_leaf', shapes.id_leaf, 'identityref spellings'),
    sc('empty', shapes.empty_leaf, 'empty leaf'),
    sc('res_defaults', leaf_defaults, 'A, B: leaves with defaults',
       fn=results),
    sc('res_np', np_empty, 'A, B: containers', fn=results),
    sc('res_ll', ll_defaults, 'A, B: <=3 ld', 'thorough', fn=results),
    sc('res_both', both_defaults, 'A, B: <=2 ld, <=2 lud', 'thorough',
       fn=results),
    Scenario('remarks', remarks, 'one comment or processing instruction at '
             'any place, five ways in', many=0),
    Scenario('remarks2', remarks, 'two comments or processing instructions',
             'thorough', many=1),
    Scenario('status', status, 'obsolete and deprecated nodes, flag'),
    Scenario('bad_key', invalid, 'list entry without a key', bad=bad_key),
    Scenario('bad_attr', invalid, 'edit attributes on any node',
             bad=bad_attr),
    Scenario('bad_tag', invalid, 'unknown nodes under any parent',
             bad=bad_tag),
]
