"""Navigation between config, schema and YANG statements."""
import os
import shutil
from lxml import etree
from symex import ctx as C
from symex.runner import Scenario
from symex.symstr import raw
from symex.engine import s_and, s_not
from . import dev, lib, shapes, wire
from .common import (CONFIG_MODULES as MODULES, ASSUME, setup, gen, config,
                     show)

MODULES = MODULES + ['ncdiff.model']
ASSUMPTIONS = ASSUME + [
    'XPath expressions are evaluated by libxml2; equality tests on text are '
    'decided by the solver.']


def pairs(e, n, up=()):
    """(element, data node, ancestors of the data node) in document order"""
    out = []
    for c, k in zip(e, n.kids):
        out.append((c, k, up))
        out += pairs(c, k, up + (k,))
    return out


def schema_path(sn):
    """the data nodes above a schema node"""
    out = []
    while sn.getparent() is not None:
        if sn.get('type') not in ('choice', 'case'):
            out.append(sn.tag)
        sn = sn.getparent()
    return out[::-1]


def statement_path(s):
    out = []
    while s.parent is not None:
        if s.keyword not in ('choice', 'case'):
            out.append('{urn:%s}%s' % (s.i_module.arg, s.arg))
        s = s.parent
    return out[::-1]


def tree(ctx, env, shape, dom, empty, lens):
    t = gen(ctx, shape, 'A', dom=dom, empty=empty, lens=lens)
    cfg = config(env, t)
    nodes = pairs(cfg.ele, lib.from_etree(cfg.ele))
    ctx.assume(len(nodes) > 0)
    return cfg, nodes


def pick(ctx, env, shape, dom, empty, lens):
    cfg, nodes = tree(ctx, env, shape, dom, empty, lens)
    return (cfg, nodes) + nodes[ctx.choice('node', len(nodes))]


def schema(ctx, env, shape, dom=C.ALNUM, empty=False, lens=None):
    cfg, nodes = tree(ctx, env, shape, dom, empty, lens)
    show(ctx, config=cfg)
    for e, n, up in nodes:
        path = [k.s for k in up] + [n.s]
        tags = [s.tag for s in path]
        sn = env.get_schema_node(e)
        ctx.check(sn.getroottree().getroot() is env.models[path[0].mod].tree,
                  'schema node is not in the tree of its model')
        ctx.check(schema_path(sn) == tags, 'wrong schema node')
        ctx.check(sn.get('type') == n.s.kind, 'wrong type of schema node')
        ctx.check(env.get_schema_node(e) is sn, 'schema node changes')
        ctx.check(env.get_model_name(e) == path[0].mod, 'wrong model name')
        ctx.check(env.get_model_name(sn) == path[0].mod,
                  'wrong model name of a schema node')
        for node in (e, sn):
            st = env.get_statement(node)
            ctx.check(st is not None and statement_path(st) == tags and
                      st.keyword == n.s.kind, 'wrong YANG statement')


def select(ctx, env, shape, dom=C.ALNUM, empty=False, lens=None):
    from ncdiff import Tag
    cfg, nodes, e, n, up = pick(ctx, env, shape, dom, empty, lens)
    show(ctx, config=cfg)
    ctx.check(cfg.xpath('/nc:config') == [cfg.ele], 'no default namespaces')
    p = '/nc:config' + env.get_xpath(e, type=Tag.LXML_XPATH)
    show(ctx, xpath=p)
    got = cfg.xpath(p)
    ctx.check(len(got) == 1 and got[0] is e,
              'xpath of a node does not select this node only')
    sib = [c for c in e.getparent() if c.tag == e.tag]
    p = '/nc:config' + env.get_xpath(e, type=Tag.LXML_XPATH, instance=False)
    got = cfg.xpath(p)
    ctx.check(len(got) == len(sib) and all(a is b for a, b in zip(got, sib)),
              'xpath without instance does not select all entries')


def expected(path, mod, last):
    """[prefix:]name[key="v"]/... with the prefix of the parent omitted"""
    out, cur = '', None
    for n in path:
        m = n.s.mod
        out += '/' + (n.s.name if m == cur else '%s:%s' % (mod[m], n.s.name))
        cur = m
        if n is path[-1] and not last:
            continue
        if n.s.kind == 'leaf-list':
            out += '[text()="%s"]' % raw(n.val)
        elif n.s.kind == 'list':
            for k in n.s.keytags:
                x = n.of(k)[0]
                out += '[%s="%s"]' % (x.s.name, raw(x.val))
    return out


def notations(ctx, env, shape, dom=C.ALNUM, empty=False, lens=None):
    from ncdiff import Tag
    cfg, nodes = tree(ctx, env, shape, dom, empty, lens)
    show(ctx, config=cfg)
    mod = {'vx': 'vx', 'vy': 'vy'}
    for e, n, up in nodes:
        for last in (True, False):
            want = expected(up + (n,), mod, last)
            for type in (Tag.XPATH, Tag.JSON_NAME, Tag.JSON_PREFIX):
                got = env.get_xpath(e, type=type, instance=last)
                ctx.check(lib.val_eq(got, want), 'wrong xpath')
        path = [k.s for k in up + (n,)]
        want = path[0].mod + ''.join(
            '/' + (x.name if x.mod == path[0].mod else x.mod + ':' + x.name)
            for x in path)
        ctx.check(env.get_xpath(e, type=Tag.YTOOL) == want, 'wrong xpath')
        sn = env.get_schema_node(e)
        if not any(a.get('type') in ('choice', 'case')
                   for a in [sn] + list(sn.iterancestors())):
            ctx.check(env.get_xpath(sn) == expected_schema(up, n),
                      'wrong xpath of a schema node')


def expected_schema(up, n):
    out, cur = '', None
    for k in up + (n,):
        m = k.s.mod
        out += '/' + (k.s.name if m == cur else m + ':' + k.s.name)
        cur = m
    return out


def unknown(ctx, env):
    """nodes that are not in the schema are never given a schema node"""
    from ncdiff.errors import ConfigError, ModelMissing
    t = lib.root()
    top = t.add('vx:top')
    top.add('vx:a', ctx.str('a'))
    top.add('vx:pr').add('vx:x', 'v')
    e = lib.to_etree(t)
    where = ctx.pick('where', ['root', 'vx:top', 'vx:pr'])
    ns = ctx.pick('ns', ['urn:vx', 'urn:vy', 'urn:unknown'])
    name = raw(ctx.pick('name', ['a', 'c', 'c1', 'ch', 'one', 'top', 'x',
                                 'oa', 'in', 'ytop']))
    parent, s = {'root': (e, lib.SCHEMA),
                 'vx:top': (e[0], lib.SCHEMA.find('vx:top')),
                 'vx:pr': (e[0][1], lib.SCHEMA.find('vx:top').find('vx:pr')),
                 }[where]
    tag = '{%s}%s' % (ns, name)
    c = etree.SubElement(parent, tag)
    show(ctx, tag=tag, where=where)
    try:
        sn = env.get_schema_node(c)
    except (ConfigError, ModelMissing):
        ctx.check(tag not in s.kids, 'no schema node for a known node')
    else:
        ctx.check(tag in s.kids, 'schema node for an unknown node')
        ctx.check(schema_path(sn)[-1] == tag and len(schema_path(sn)) == {
            'root': 1, 'vx:top': 2, 'vx:pr': 3}[where], 'wrong schema node')


# list keys may be separated by any white space (RFC 7950 section 7.8.2)
SEP = [' ', '  ', '\t', '\n', '\r\n   ']
KEYED = 'module kk { namespace "urn:kk"; prefix kk; revision 2024-01-01 { ' \
    'description "d"; } list l { key "%s"; leaf xa { type string; } leaf a { ' \
    'type string; } leaf b { type string; } leaf xb { type string; } ' \
    'leaf c { type string; } } }'
devices = {}


def keys(ctx, env):
    from ncdiff import Tag, Config
    from ncdiff.composer import Composer
    names = ctx.pick('keys', [('a', 'b'), ('b', 'a'), ('c', 'a', 'b')])
    key = ctx.pick('separator', SEP).join(names)
    if key not in devices:
        devices[key] = dev.make(names=('kk',),
                                files={'kk.yang': KEYED % key})
    d = devices[key]
    e = etree.Element('{%s}config' % lib.NC, nsmap={'nc': lib.NC})
    for i in range(2):
        x = etree.SubElement(e, '{urn:kk}l')
        for n in ['xa', 'a', 'b', 'xb', 'c']:
            etree.SubElement(x, '{urn:kk}' + n).text = \
                raw(ctx.str('%s%d' % (n, i))) if len(n) == 1 else 'z'
    same = s_and([lib.val_eq(raw(e[0].find('{urn:kk}' + n).text),
                             raw(e[1].find('{urn:kk}' + n).text))
                  for n in names])
    ctx.assume(s_not(same))
    cfg = Config(d, e)
    show(ctx, config=cfg, key=key)
    for x in cfg.ele:
        ctx.check(Composer(d, x).keys == ['{urn:kk}' + n for n in names],
                  'wrong keys')
        got = cfg.xpath('/nc:config' + d.get_xpath(x, type=Tag.LXML_XPATH))
        ctx.check(len(got) == 1 and got[0] is x,
                  'xpath of a node does not select this node only')


# names, prefixes and namespaces have nothing in common
URLS = {'p': 'urn:1', 'q': 'urn:2'}


def device_pq():
    if 'pq' not in devices:
        devices['pq'] = dev.make(names=('p', 'q'), load=(), files={
            m + '.yang': 'module %s { namespace "%s"; prefix %s; revision '
            '2024-01-01; }' % (m, URLS[m], m) for m in 'pq'})
    d, s = wire.device(wire.BASE)
    d.compiler = devices['pq'].compiler
    return d


VERSIONED = '<%s type="module" prefix="%s"><namespace prefix="%s">%s' \
    '</namespace>%s</%s>'


def version(ctx, m, i):
    """a version of module m: (file text, {path: default})"""
    nodes, body = {}, ''
    p = '{%s}' % URLS[m]
    for root in ('r', 's'):
        kids = ''
        for leaf in ('a', 'b'):
            if root == 's' and leaf == 'b':
                continue
            if ctx.bool('%s%d has %s/%s' % (m, i, root, leaf)):
                d = '%s%d' % (m, i)
                kids += '<%s xmlns="%s" type="leaf" access="read-write" ' \
                    'default="%s"/>' % (leaf, URLS[m], d)
                nodes[(p + root, p + leaf)] = d
        if kids or root == 'r':
            body += '<%s xmlns="%s" type="container" access="read-write">' \
                '%s</%s>' % (root, URLS[m], kids, root)
            nodes[(p + root,)] = None
    return VERSIONED % (m, m, m, URLS[m], body, m), nodes


def lookups(ctx, d, now):
    from ncdiff.errors import ConfigError, ModelMissing
    for m in ('p', 'q'):
        for root in 'rs':
            for leaf in (None, 'a', 'b'):
                path = tuple('{%s}%s' % (URLS[m], x)
                             for x in (root, leaf) if x)
                e = etree.Element('{%s}config' % lib.NC)
                for t in path:
                    e = etree.SubElement(e, t)
                try:
                    sn = d.get_schema_node(e)
                except (ConfigError, ModelMissing):
                    sn = None
                if path in now.get(m, {}):
                    ctx.check(sn is not None and
                              sn.get('default') == now[m][path] and
                              sn.getroottree().getroot() is d.models[m].tree,
                              'not the schema node of the loaded model')
                else:
                    ctx.check(sn is None, 'schema node of a model that is not '
                              'loaded any more')


def reload(ctx, env, n):
    """models are loaded again, in other versions, between lookups"""
    tmp, d = dev.scratch({}), device_pq()
    now = {}
    try:
        for i in range(n):
            m = ctx.pick('load%d' % i, ['p', 'q'])
            text, nodes = version(ctx, m, i)
            f = os.path.join(tmp, '%s%d.xml' % (m, i))
            with open(f, 'w') as h:
                h.write(text)
            got = d.load_model(f)
            ctx.check(d.models[m] is got and got.name == m, 'not loaded')
            now[m] = nodes
            ctx.check(d.models_loaded == sorted(now), 'models_loaded')
            if i == n - 1 or ctx.bool('lookup%d' % i):
                lookups(ctx, d, now)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# -- the same names at many places -----------------------------------------
SAME = 'module w { namespace "urn:w"; prefix w; revision 2024-01-01; ' \
    'leaf %(root)s { type string; } ' \
    'container c { leaf %(in)s { type string; } container d { ' \
    'leaf %(deep)s { type string; } } ' \
    'container e { container d { leaf %(deeper)s { type string; } } } ' \
    'choice ch { case %(case)s { ' \
    'leaf %(cased)s { type string; } } } } ' \
    'rpc r { input { leaf %(input)s { type string; } } ' \
    'output { leaf %(output)s { type string; } } } ' \
    'notification e { leaf %(event)s { type string; } } }'


def same_names(ctx, env):
    """a node is found by its place, whatever else has its name"""
    from ncdiff import Tag
    from ncdiff.errors import ConfigError, ModelMissing
    n = {}
    for k, names in (('root', 'n'), ('in', 'nmc'), ('deep', 'nmd'), ('deeper', 'nm'),
                     ('case', 'no'), ('cased', 'nmo'), ('input', 'nm'),
                     ('output', 'nm'), ('event', 'nm')):
        n[k] = raw(ctx.pick(k, list(names)))
    ctx.assume(n['in'] != n['cased'])
    key = tuple(sorted(n.items()))
    if key not in devices:
        devices[key] = dev.make(names=('w',), files={'w.yang': SAME % n})
    d = devices[key]
    show(ctx, yang=SAME % n)
    there = {(n['root'],), ('c',), ('c', n['in']), ('c', 'd'),
             ('c', 'd', n['deep']), ('c', n['cased']), ('c', 'e'),
             ('c', 'e', 'd'), ('c', 'e', 'd', n['deeper'])}
    for path in [(x,) for x in 'nmocdre'] + \
            [('c', x) for x in 'nmocd'] + [('c', 'd', x) for x in 'nmocd'] + \
            [('c', 'e', x) for x in 'nmd'] + \
            [('c', 'e', 'd', x) for x in 'nmd'] + \
            [('c', 'ch'), ('ch',), ('input',), ('r', n['input'])]:
        e = etree.Element('{%s}config' % lib.NC)
        for x in path:
            e = etree.SubElement(e, '{urn:w}' + x)
        try:
            sn = d.get_schema_node(e)
        except (ConfigError, ModelMissing):
            sn = None
        if path not in there:
            ok = sn is None or sn.get('type') in ('rpc', 'notification',
                                                  'input')
            ctx.check(ok, 'schema node for an unknown node')
            continue
        ctx.check(sn is not None, 'no schema node')
        ctx.check(schema_path(sn) == ['{urn:w}' + x for x in path] and
                  sn.get('type') in ('leaf', 'container'),
                  'wrong schema node')
        st = d.get_statement(e)
        ctx.check(st is not None and statement_path(st) ==
                  ['{urn:w}' + x for x in path] and
                  st.keyword == sn.get('type'), 'wrong YANG statement')


def bushy(depth):
    if depth == 0:
        return 'leaf a { type string; } leaf b { type string; }'
    return ' '.join('container %s { %s }' % (n, bushy(depth - 1))
                    for n in 'ab')


def same_deep(ctx, env, depth):
    """two places that differ somewhere along the way are told apart"""
    if ('bushy', depth) not in devices:
        devices['bushy', depth] = dev.make(names=('w',), files={
            'w.yang': 'module w { namespace "urn:w"; prefix w; revision '
                      '2024-01-01; %s }' % bushy(depth)})
    d = devices['bushy', depth]
    p = [raw(ctx.pick('p%d' % i, ['a', 'b'])) for i in range(depth + 1)]
    q = list(p)
    for i in ctx.subset('differ', list(range(depth + 1))):
        q[i] = {'a': 'b', 'b': 'a'}[p[i]]
    show(ctx, p=p, q=q)
    for path in (p, q, p):
        e = etree.Element('{%s}config' % lib.NC)
        for x in path:
            e = etree.SubElement(e, '{urn:w}' + x)
        want = ['{urn:w}' + x for x in path]
        ctx.check(schema_path(d.get_schema_node(e)) == want,
                  'wrong schema node')
        ctx.check(statement_path(d.get_statement(e)) == want,
                  'wrong YANG statement')


def quoted(g, r):
    t = r.add('vx:top')
    g.list(t, 'vx:sl', 2, lambda g, e, p: g.leaf(e, 'vx:v', p))


def quoted_ll(g, r):
    t = r.add('vx:top')
    g.leaflist(t, 'vx:ls', 2)


def quoted2(g, r):
    t = r.add('vx:top')
    g.list(t, 'vx:s2', 2)


NAMES = [('leafs', shapes.leafs), ('deep', shapes.deep),
         ('slist', shapes.slist_deep), ('two keys', shapes.two_keys),
         ('nested', shapes.nested2), ('choice', shapes.choice),
         ('nested choice', shapes.nested_choice),
         ('top choice', shapes.topchoice), ('top level', shapes.toplevel_list), ('modules', shapes.modules)]
SCENARIOS = [Scenario('schema ' + n, schema, n, shape=s) for n, s in NAMES]
SCENARIOS += [Scenario('notations ' + n, notations, n, shape=s)
              for n, s in NAMES]
SCENARIOS += [Scenario('select ' + n, select, n, shape=s) for n, s in NAMES]
SCENARIOS += [
    Scenario('quotes key', select, '<=2 sl entries, keys of 1 or 2 characters '
             'of printable ASCII', shape=quoted, dom=C.ANY, lens=[1, 2]),
    Scenario('quotes leaf-list', select, '<=2 values of 1-3 characters of '
             'printable ASCII', shape=quoted_ll, dom=C.ANY, lens=[1, 2, 3]),
    Scenario('quotes two keys', select, '<=2 s2 entries, printable ASCII',
             shape=quoted2, dom=C.ANY),
    Scenario('empty key', select, '<=2 sl entries, values may be empty',
             shape=quoted, empty=True),
    Scenario('empty value', select, '<=2 values, may be empty',
             shape=quoted_ll, empty=True),
    Scenario('keys', keys, '2 entries of a list with 2 or 3 keys, 5 kinds '
             'of separators'),
    Scenario('same names', same_names, 'a root, nodes in containers, a '
             'choice, rpc and notification that share names'),
    Scenario('same names deep', same_deep, 'two places 5 levels deep that '
             'differ at any of the levels', depth=4),
    Scenario('reload', reload, '2 loads of 2 models with 3 optional leafs '
             'each', n=2),
    Scenario('reload 3', reload, '3 loads', n=3, tier='thorough'),
    Scenario('unknown', unknown, 'one node of a known or unknown name at '
             'three places'),
]
