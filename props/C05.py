"""Operations never modify their operands and results do not alias them."""
from lxml import etree
from symex.runner import Scenario
from symex.engine import s_and
from . import lib, shapes
from .common import (CONFIG_MODULES as MODULES, ASSUME, setup, gen, config,
                     show, _o, QUICK, FULL)

ASSUMPTIONS = ASSUME + [
    'Observed: tag, text, tail, attributes, namespace declarations and order '
    'of every element of every operand.']


def snap(e):
    return (e.tag, e.text, e.tail, sorted(e.attrib.items()),
            dict(e.nsmap), [snap(c) for c in e])


def teq(a, b):
    if a is None or b is None:
        return a is b
    return lib.val_eq(a, b)


def same(a, b):
    if a[0] != b[0] or a[4] != b[4] or len(a[5]) != len(b[5]) or \
            [x[0] for x in a[3]] != [x[0] for x in b[3]]:
        return False
    return s_and([teq(a[1], b[1]), teq(a[2], b[2])] +
                 [teq(x[1], y[1]) for x, y in zip(a[3], b[3])] +
                 [same(x, y) for x, y in zip(a[5], b[5])])


def spoil(e):
    """change everything in a result: nothing of it may be shared"""
    for x in list(e.iter()):
        x.text = 'spoiled'
        x.set('spoiled', '1')
    for c in list(e):
        e.remove(c)


ATTRS = ['preferred_create', 'preferred_replace', 'preferred_delete',
         'diff_type', 'replace_depth', 'replace_xpath', 'random_depth',
         'random_seed']
XPATHS = ['./vx:top/vx:a', '//vx:ul', '//vx:k', '//vx:ls', '//vx:x']


def operators(ctx, env, shape):
    from ncdiff.config import Config, ConfigDelta
    ta, tb = gen(ctx, shape, 'A'), gen(ctx, shape, 'B')
    A, B = config(env, ta), config(env, tb)
    a, b = snap(A.ele), snap(B.ele)
    show(ctx, A=A, B=B)

    def intact(what):
        ctx.check(same(snap(A.ele), a), '%s modifies A' % what)
        ctx.check(same(snap(B.ele), b), '%s modifies B' % what)
    what = ctx.pick('operation', ['delta', 'add', 'undo', 'compare', 'filter',
                                  'views', 'copy'])
    if what == 'delta':
        kw = ctx.pick('options', FULL if ctx.tier == 'thorough' else QUICK)
        d = ConfigDelta(config_src=A, config_dst=B, **kw)
        a1 = [getattr(d, x) for x in ATTRS]
        n1 = d.nc
        s1 = snap(n1)
        intact('computing a delta')
        C = A + d
        intact('A + delta')
        spoil(C.ele)
        intact('changing A + delta')
        n = -d
        n.nc
        bool(d), bool(n), str(d), d.ns, d.models, d.roots
        d + A, B - d
        intact('using a delta')
        n2 = d.nc
        ctx.check([getattr(d, x) for x in ATTRS] == a1,
                  'attributes of a delta change')
        ctx.check(same(snap(n2), s1), 'the delta differs when read again')
        spoil(n1)
        intact('changing a delta')
        ctx.check(same(snap(d.nc), s1), 'deltas share elements')
        ctx.check(d.config_src is A and d.config_dst is B,
                  'delta has other configs')
    elif what == 'add':
        try:
            C = A + B
        except Exception as e:
            # B may select another case or the like; still nothing changes
            intact('failing A + B')
            raise
        intact('A + B')
        spoil(C.ele)
        intact('changing A + B')
    elif what == 'undo':
        d = B - A
        C = B - d
        intact('B - (B - A)')
        D = A + d
        E = d + A
        intact('delta + A')
        s = snap(D.ele)
        spoil(C.ele)
        spoil(E.ele)
        intact('changing B - (B - A)')
        ctx.check(same(snap(D.ele), s), 'results share elements')
        n = -d
        n.nc
        intact('-delta')
    elif what == 'compare':
        for f in (A.__le__, A.__lt__, A.__ge__, A.__gt__, A.__eq__, A.__ne__):
            f(B)
        bool(A)
        intact('comparing')
        bool(B - A)
        bool(A - B)
        intact('bool(delta)')
    elif what == 'filter':
        x = ctx.pick('xpath', XPATHS)
        C = A.filter(x)
        intact('filter')
        spoil(C.ele)
        intact('changing a filter result')
        A.xpath(x)
        intact('xpath')
    elif what == 'views':
        for c in (A, B - A):
            str(c)
            c.ns
            c.models
            c.roots
        A.xml
        repr(A)
        intact('reading attributes')
    else:
        e = lib.to_etree(ta)
        s = snap(e)
        C = Config(env, e)
        ctx.check(same(snap(e), s), 'Config modifies the element given')
        spoil(C.ele)
        ctx.check(same(snap(e), s), 'Config shares the element given')
        ed = lib.to_etree(tb)
        s = snap(ed)
        A + ed
        ctx.check(same(snap(ed), s), 'A + element modifies the element')
        d = ConfigDelta(config_src=A, delta=ed)
        d.nc
        ctx.check(same(snap(ed), s), 'delta= modifies the element given')
        spoil(d.config_dst.ele)
        ctx.check(same(snap(ed), s), 'delta= shares the element given')
        intact('delta=')


def sc(name, shape, bounds, tier='quick', **kw):
    return Scenario(name, operators, bounds, tier, shape=shape, **kw)


SCENARIOS = [
    sc('leafs1', shapes.leafs1, 'per side: top{a, in{x}}'),
    sc('presence', shapes.presence, 'per side: a, pr{x}'),
    sc('leaflist', shapes.leaflist, 'per side: <=2 ls'),
    sc('userleaflist', lambda g, r: shapes.userleaflist(g, r, 2),
       'per side: <=2 lu'),
    sc('slist1', shapes.slist1, 'A: <=1 sl{v}, B: <=2 sl'),
    sc('ulist', lambda g, r: shapes.ulist(g, r, 2), 'per side: <=2 ul'),
    sc('ulist3', shapes.ulist, 'per side: <=3 ul', 'thorough'),
    sc('ulist_val1', shapes.ulist_val1, 'per side: <=2 ul{v}', 'thorough'),
    sc('two_keys1', shapes.two_keys1, 'A: <=1 s2{v}, B: <=2 s2'),
    sc('clash', shapes.clash, 'per side: vx:lu<=1, vy:lu, vx:b, vy:b<=1',
       'thorough'),
    sc('clash_lu', shapes.clash_lu, 'per side: vx:lu<=1, vy:lu'),
    sc('clash_b', shapes.clash_b, 'per side: vx:b, vy:b<=1'),
    sc('both_user', shapes.both_user, 'A: 1 or 2, B: 2 lu and ul, any order'),
    sc('clash2', shapes.clash2, 'per side: vx:in{x}, vy:in<=2'),
    sc('clash_key', shapes.clash_key, 'A: <=1, B: <=2 sl{vy:k}'),
    sc('names', shapes.names, 'per side: rn{v, w<=1, rn{v, w<=1}}'),
    sc('names_list', shapes.names_list, 'per side: rn{<=1 e{<=1 e}}'),
    sc('names_list2', lambda g, r: shapes.names_list(g, r, 2),
       'rn{<=2 e{<=2 e}}', 'thorough'),
    sc('nested', shapes.nested, 'per side: <=1 nl{<=2 ul}'),
    sc('choice1', shapes.choice1, 'per side: one of three cases'),
    sc('toplevel', shapes.toplevel, 'per side: tl, <=2 tll'),
    sc('modules1', shapes.modules1, 'per side: vx:a, vy:a, ytop{p}'),
    sc('id_leaf1', shapes.id_leaf1, 'per side: identityref'),
    sc('id_key', lambda g, r: shapes.id_key(g, r, hi=1),
       'per side: <=1 idk', 'thorough'),
    sc('leafs', shapes.leafs, 'per side: top{a,b,in{x}}', 'thorough'),
    sc('deep', shapes.deep, 'per side: in{x, deep{z, dl<=1}}', 'thorough'),
    sc('slist', shapes.slist, 'per side: <=2 sl{v}', 'thorough'),
]
