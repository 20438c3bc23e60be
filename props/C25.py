"""Text and attributes of configs and deltas say what these hold."""
from lxml import etree
from symex import ctx as C
from symex.runner import Scenario
from symex.symstr import raw, SymStr
from symex.engine import s_and
from . import dev, lib, shapes
from .common import (CONFIG_MODULES as MODULES, ASSUME, gen, config, show,
                     _o, QUICK, FULL)

ASSUMPTIONS = ASSUME + [
    'Two more modules: vz is loaded too and shares names with vx, vw is '
    'scanned but not loaded.']
NS = {'vx': 'urn:vx', 'vy': 'urn:vy', 'vz': 'urn:vz', 'vw': 'urn:vw'}
VZ = 'module vz { namespace "urn:vz"; prefix vz; revision 2024-01-01; ' \
    'container top { leaf a { type string; } } leaf t { type string; } }'
VW = 'module vw { namespace "urn:vw"; prefix vw; revision 2024-01-01; ' \
    'leaf top { type string; } }'


def setup():
    return dev.make(names=('vx', 'vy', 'vz', 'vw'), load=('vx', 'vy', 'vz'),
                    files=dict(dev.yang_files('vx', 'vy'),
                               **{'vz.yang': VZ, 'vw.yang': VW}))


def known(e):
    """the prefixes that are declared for a node"""
    return dict(e.nsmap)


def same(a, b, decl):
    """the same tree; b also has the prefixes of a, where decl"""
    if a.tag != b.tag or len(a) != len(b) or \
            set(map(raw, a.attrib)) != set(map(raw, b.attrib)):
        return False
    if decl and any(b.nsmap.get(p) != u for p, u in a.nsmap.items()):
        return False

    def text(x):
        t = raw(x.text or '')
        return '' if len(x) and not t.strip() else t
    return s_and([lib.val_eq(text(a), text(b))] +
                 [lib.val_eq(a.get(k), b.get(k)) for k in a.attrib] +
                 [same(x, y, decl) for x, y in zip(a, b)])


def texts(ctx, env, shape, **kw):
    """what is printed parses to what was printed"""
    from ncdiff.config import Config
    A = config(env, gen(ctx, shape, 'A', **kw))
    how = ctx.pick('print', ['str', 'xml'])
    s = str(A) if how == 'str' else A.xml
    show(ctx, printed=s)
    e = etree.fromstring(raw(s))
    ctx.check(same(A.ele, e, True), 'the text of a config is not the config')
    B = Config(env, SymStr(raw(s)))
    show(ctx, parsed=B)
    ctx.check(same(A.ele, B.ele, True), 'the text of a config is another '
              'config')
    ctx.check((A == B) is True and not (A - B), 'a config differs from the '
              'config made of its text')


def delta_texts(ctx, env, shape, opts=None, **kw):
    from ncdiff.config import ConfigDelta
    A = config(env, gen(ctx, shape, 'A', **kw))
    B = config(env, gen(ctx, shape, 'B', **kw))
    d = ConfigDelta(config_src=A, config_dst=B, **ctx.pick(
        'options', opts or FULL))
    s = str(d)
    show(ctx, A=A, B=B, printed=s)
    ctx.check(same(d.nc, etree.fromstring(raw(s)), True),
              'the text of a delta is not the delta')
    r = ConfigDelta(config_src=A, delta=SymStr(raw(s)))
    ctx.check((r.config_dst == B) is True, 'the text of a delta leads to '
              'another config')


# -- attributes ---------------------------------------------------------------
ROOTS = [('vx', 'top'), ('vx', 'tl'), ('vy', 'ytop'), ('vz', 'top'),
         ('vz', 't')]
BELOW = {('vx', 'top'): ['vx:a', 'vy:a'], ('vy', 'ytop'): ['vy:p'],
         ('vz', 'top'): ['vz:a']}
DECL = [None, {'vx': 'urn:vz'}, {None: 'urn:vx', 'x': 'urn:vy'}]


def tag(m, n):
    return '{%s}%s' % (NS[m], n)


def put(ctx, side, e, r):
    x = etree.SubElement(e, tag(*r))
    if r in BELOW:
        m, n = ctx.pick('%s.below %s:%s' % (side, r[0], r[1]),
                        BELOW[r]).split(':')
        x = etree.SubElement(x, tag(m, n))
    x.text = raw(ctx.str('%s.%s:%s' % (side, r[0], r[1])))


def make(ctx, env, side, roots):
    from ncdiff.config import Config
    e = etree.Element(lib.CONFIG, nsmap=ctx.pick(side + '.declares', DECL))
    have = [r for r in roots if ctx.bool('%s.has %s:%s' % (side, *r))]
    if len(have) > 1 and ctx.bool(side + '.reversed'):
        have.reverse()
    for r in have:
        put(ctx, side, e, r)
    return Config(env, e)


def all_roots(e):
    back = dict((u, m) for m, u in NS.items())
    out = {}
    for c in e:
        q = etree.QName(c)
        out['{%s}%s' % (raw(q.namespace), raw(q.localname))] = \
            back[raw(q.namespace)]
    return out


def plain(d):
    return dict((raw(k), raw(v)) for k, v in d.items())


def urls(e):
    out = set()
    for x in e.iter():
        out |= set(raw(etree.QName(t).namespace)
                   for t in [x.tag] + list(x.attrib))
    return out


def prefixes(ctx, ns, e, what):
    ns = plain(ns)
    for u in urls(e):
        ps = [p for p, v in ns.items() if v == u]
        ctx.check(len(ps) == 1, '%s: not one prefix for a namespace' % what)
        for m in NS:
            ctx.check(u != NS[m] or ps == [m],
                      '%s: not the prefix of the model' % what)


def tells(ctx, c):
    want = all_roots(c.ele)
    ctx.check(plain(c.roots) == want, 'wrong roots')
    ctx.check([raw(m) for m in c.models] == sorted(set(want.values())),
              'wrong models')
    prefixes(ctx, c.ns, c.ele, 'config')
    ctx.check(bool(c) is (len(c.ele) > 0), 'wrong truth value')
    for m in sorted(NS):
        for n in ('top', 'a', 't', 'p', 'ytop'):
            found = [x for x in c.ele.iter(tag(m, n))]
            got = c.xpath('//%s:%s' % (m, n))
            ctx.check(len(got) == len(found) and all(
                any(x is y for y in found) for x in got),
                'xpath does not find the nodes')
            ctx.check(c.xpath('count(//%s:%s)' % (m, n)) == len(found),
                      'xpath does not count the nodes')
            got = c.xpath('//z:%s' % n, namespaces={'z': NS[m]})
            ctx.check(len(got) == len(found), 'namespaces of the caller are '
                      'not used')
    for x in c.ele:
        ctx.check(raw(c.get_model_name(x)) == want[raw(x.tag)],
                  'wrong model name')
        ctx.check(raw(c.get_schema_node(x).tag) == raw(x.tag),
                  'wrong schema node')


def about(ctx, env, roots):
    """attributes of a config, also after it has changed"""
    A = make(ctx, env, 'A', roots)
    show(ctx, A=A)
    tells(ctx, A)
    for i in range(1):
        r = ctx.pick('change', [None] + roots)
        if r is None:
            ctx.check(A.device is env, 'wrong device')
            return
        x = A.ele.find(tag(*r))
        if x is not None:
            A.ele.remove(x)
        else:
            put(ctx, 'A2', A.ele, r)
        show(ctx, changed=A)
        tells(ctx, A)


def about_delta(ctx, env, roots):
    """attributes of a delta"""
    A, B = make(ctx, env, 'A', roots), make(ctx, env, 'B', roots)
    d = B - A
    show(ctx, A=A, B=B, delta=d)
    nc = d.nc
    got = plain(d.roots)
    both = dict(all_roots(A.ele), **all_roots(B.ele))
    here = all_roots(nc)
    ctx.check(all(got.get(t) == m for t, m in here.items()),
              'a root of the delta is not in its roots')
    ctx.check(all(both.get(t) == m for t, m in got.items()),
              'a root is in neither config')
    ctx.check([raw(m) for m in d.models] == sorted(set(got.values())),
              'the models are not those of the roots')
    prefixes(ctx, d.ns, nc, 'delta')
    ctx.check(d.device is env and d.config_src is A and d.config_dst is B,
              'wrong configs')
    ctx.check(bool(d) is (len(nc) > 0), 'wrong truth value')
    n = -d
    ctx.check(plain(n.roots) == got and n.models == d.models,
              'a delta and its inverse have other roots')


SHAPES = [('leafs', shapes.leafs), ('deep', shapes.deep),
          ('presence', shapes.presence), ('user list', shapes.ulist_two),
          ('two keys', shapes.two_keys1), ('top level', shapes.toplevel_list),
          ('modules', shapes.modules), ('empty leaf', shapes.empty_leaf),
          ('identityref', shapes.id_leaf), ('id key', shapes.id_key)]
SCENARIOS = [Scenario('text ' + n, texts, n, shape=s) for n, s in SHAPES]
SCENARIOS += [
    Scenario('text any', texts, 'leaf and leaf-list, 1-3 characters of '
             'printable ASCII, also blank ones', shape=shapes.text,
             dom=C.ANY, lens=[1, 2, 3]),
    Scenario('text empty', texts, 'leafs that may be empty',
             shape=shapes.leafs, empty=True)]
SCENARIOS += [Scenario('delta text ' + n, delta_texts, n + ', 3 options',
                       shape=s, opts=[QUICK[0], QUICK[2], QUICK[6]])
              for n, s in (('leafs', shapes.leafs1),
                           ('user list', shapes.ulist_val1),
                           ('user leaf-list', shapes.userleaflist),
                           ('modules', shapes.modules1))]
SCENARIOS += [
    Scenario('delta text any', delta_texts, 'leaf and leaf-list, any '
             'printable ASCII', shape=shapes.text, opts=[QUICK[0]],
             dom=C.ANY),
    Scenario('about', about, '5 roots of 3 modules, one change', roots=ROOTS),
    Scenario('about delta', about_delta, '3 roots of 3 modules in either '
             'config', roots=[ROOTS[0], ROOTS[2], ROOTS[3]]),
    Scenario('about delta 5', about_delta, '5 roots of 3 modules in either '
             'config', roots=ROOTS, tier='thorough'),
]
