"""filter() keeps exactly the selected nodes, what is inside them, their
ancestors and the keys of the list entries on the way."""
from symex.runner import Scenario
from symex.engine import s_and, s_or, s_not
from . import lib, shapes
from .common import (CONFIG_MODULES as MODULES, ASSUME, setup, gen, config,
                     show)
from .C07 import exact

ASSUMPTIONS = ASSUME + [
    'Path expressions are those listed per scenario, with symbolic literals; '
    'which nodes they select is computed by the harness, not by libxml2.']


def step(n, name):
    m, t = name.split(':')
    return [k for k in n.kids if k.s.mod == m and k.s.name == t]


def desc(n, name):
    out = []
    for k in n.kids:
        if k.s.mod + ':' + k.s.name == name:
            out.append(k)
        out += desc(k, name)
    return out


def D(name):
    return lambda ns, lit: [x for n in ns for x in desc(n, name)]


def C(name):
    return lambda ns, lit: [x for n in ns for x in step(n, name)]


def P(name):
    """[name="literal"]"""
    return lambda ns, lit: [
        n for n in ns
        if any(bool(lib.val_eq(k.val, lit)) for k in step(n, name))]


def T(ns, lit):
    return [n for n in ns if lib.val_eq(n.val, lit)]


def run(root, steps, lit):
    ns = [root]
    for s in steps:
        ns = s(ns, lit)
    return ns


def keep(n, sel, inside=False):
    """copy of n with the filtered content, None if nothing is left"""
    inside = inside or any(n is x for x in sel)
    if inside:
        return n
    kids = []
    used = False
    for k in n.kids:
        c = keep(k, sel)
        if c is not None:
            used = True
        elif k.s.tag in n.s.keytags:
            c = k
        if c is not None:
            kids.append(c)
    if not used:
        return None
    return lib.N(n.s, n.val, kids)


def filt(ctx, env, shape, paths, union=None):
    t = gen(ctx, shape, 'A')
    A = config(env, t)
    na = lib.normalise(t)
    p, steps = ctx.pick('path', paths)
    if union:
        q, more = ctx.pick('or path', union)
        p, steps = '%s | %s' % (p, q), [steps, more]
    lit = None
    if '%s' in p:
        lit = ctx.str('literal', 1, lib.ALNUM)
        p = p % (lit,)
    kw = {}
    if ctx.bool('namespaces given'):
        kw['namespaces'] = {'vx': 'urn:vx', 'vy': 'urn:vy'}
    F = A.filter(p, **kw)
    show(ctx, A=A, path=p, result=F)
    alts = steps if isinstance(steps[0], list) else [steps]
    sel = [x for s in alts for x in run(na, s, lit)]
    want = keep(na, sel) or lib.root()
    ctx.check(exact(lib.from_etree(F.ele), want), 'filter result')
    ctx.check((F <= A) is True or any(
        k.s.user for k in sel), 'filter result is not part of the config')
    ctx.check(type(F) is type(A) and F.device is A.device, 'not a Config')


def leaves(g, r):
    t = r.add('vx:top')
    g.leaf(t, 'vx:a')
    g.leaf(t.add('vx:in'), 'vx:x')
    if g.b('has pr'):
        g.leaf(t.add('vx:pr'), 'vx:x')
    g.leaf(r, 'vx:tl')


LEAVES = [
    ('.//vx:top/vx:a', [D('vx:top'), C('vx:a')]),
    ('./vx:top/vx:in', [C('vx:top'), C('vx:in')]),
    ('.//vx:x', [D('vx:x')]),
    ('.//vx:x[text()="%s"]', [D('vx:x'), T]),
    ('.//vx:in/vx:x | ./vx:tl', [[D('vx:in'), C('vx:x')], [C('vx:tl')]]),
    ('./vx:top', [C('vx:top')]),
    ('.//vx:pr', [D('vx:pr')]),
    ('.//vx:nosuch', [D('vx:nosuch')]),
    ('./vx:top[vx:a="%s"]/vx:in', [C('vx:top'), P('vx:a'), C('vx:in')]),
]


def slist(g, r):
    t = r.add('vx:top')

    def body(g, e, p):
        g.leaf(e, 'vx:v', p)
        if '[0]' in p and g.b(p + 'has c'):
            e.add('vx:c').add('vx:w', g.s(p + 'w'))
    g.list(t, 'vx:sl', 2, body)
    g.leaf(t, 'vx:a')


SLIST = [
    ('.//vx:sl', [D('vx:sl')]),
    ('.//vx:sl[vx:k="%s"]', [D('vx:sl'), P('vx:k')]),
    ('.//vx:sl/vx:v', [D('vx:sl'), C('vx:v')]),
    ('.//vx:sl[vx:k="%s"]/vx:v', [D('vx:sl'), P('vx:k'), C('vx:v')]),
    ('.//vx:sl[vx:v="%s"]/vx:c', [D('vx:sl'), P('vx:v'), C('vx:c')]),
    ('.//vx:k', [D('vx:k')]),
    ('.//vx:k[text()="%s"]', [D('vx:k'), T]),
    ('.//vx:w', [D('vx:w')]),
    ('.//vx:w | .//vx:a', [[D('vx:w')], [D('vx:a')]]),
]


def ulist(g, r):
    t = r.add('vx:top')
    g.list(t, 'vx:ul', 2, lambda g, e, p: g.leaf(e, 'vx:v', p))
    g.leaflist(t, 'vx:lu', 2)


ULIST = [
    ('.//vx:ul[vx:k="%s"]', [D('vx:ul'), P('vx:k')]),
    ('.//vx:ul/vx:v', [D('vx:ul'), C('vx:v')]),
    ('.//vx:lu[text()="%s"]', [D('vx:lu'), T]),
    ('.//vx:lu', [D('vx:lu')]),
    ('./vx:top/vx:ul | ./vx:top/vx:lu', [[C('vx:top'), C('vx:ul')],
                                         [C('vx:top'), C('vx:lu')]]),
]
NESTED = [
    ('.//vx:nl/vx:ul', [D('vx:nl'), C('vx:ul')]),
    ('.//vx:nl[vx:k="%s"]/vx:ul', [D('vx:nl'), P('vx:k'), C('vx:ul')]),
    ('.//vx:nl/vx:ul[vx:k="%s"]', [D('vx:nl'), C('vx:ul'), P('vx:k')]),
    ('.//vx:nl/vx:lu[text()="%s"]', [D('vx:nl'), C('vx:lu'), T]),
    ('.//vx:ul/vx:k', [D('vx:ul'), C('vx:k')]),
    ('.//vx:nl/vx:k', [D('vx:nl'), C('vx:k')]),
    ('.//vx:k', [D('vx:k')]),
]
CLASH = [
    ('.//vx:lu', [D('vx:lu')]),
    ('.//vy:lu', [D('vy:lu')]),
    ('.//vx:b', [D('vx:b')]),
    ('.//vy:b', [D('vy:b')]),
    ('.//vy:b[vy:k="%s"]', [D('vy:b'), P('vy:k')]),
]
CLASHK = [
    ('.//vx:sl/vx:k', [D('vx:sl'), C('vx:k')]),
    ('.//vx:sl/vy:k', [D('vx:sl'), C('vy:k')]),
    ('.//vx:sl[vy:k="%s"]', [D('vx:sl'), P('vy:k')]),
    ('.//vx:sl[vx:k="%s"]/vy:k', [D('vx:sl'), P('vx:k'), C('vy:k')]),
]
NAMES = [
    ('.//vx:rn', [D('vx:rn')]),
    ('.//vx:rn/vx:rn', [D('vx:rn'), C('vx:rn')]),
    ('.//vx:rn/vx:rn/vx:v', [D('vx:rn'), C('vx:rn'), C('vx:v')]),
    ('./vx:top/vx:rn/vx:v', [C('vx:top'), C('vx:rn'), C('vx:v')]),
    ('.//vx:w', [D('vx:w')]),
    ('.//vx:rn[vx:v="%s"]/vx:w', [D('vx:rn'), P('vx:v'), C('vx:w')]),
]
ENTRIES = [
    ('.//vx:e', [D('vx:e')]),
    ('.//vx:e/vx:e', [D('vx:e'), C('vx:e')]),
    ('.//vx:e[vx:v="%s"]', [D('vx:e'), P('vx:v')]),
    ('./vx:top/vx:rn/vx:e/vx:v', [C('vx:top'), C('vx:rn'), C('vx:e'),
                                  C('vx:v')]),
    ('.//vx:e/vx:e/vx:v', [D('vx:e'), C('vx:e'), C('vx:v')]),
]
KEYS2 = [
    ('.//vx:s2/vx:v', [D('vx:s2'), C('vx:v')]),
    ('.//vx:s2[vx:k1="%s"]', [D('vx:s2'), P('vx:k1')]),
    ('.//vx:s2/vx:k1', [D('vx:s2'), C('vx:k1')]),
]
MODS = [
    ('.//vy:a', [D('vy:a')]),
    ('.//vx:a', [D('vx:a')]),
    ('./vy:ytop/vy:e', [C('vy:ytop'), C('vy:e')]),
    ('./vy:ytop/vy:e[vy:k="%s"]', [C('vy:ytop'), C('vy:e'), P('vy:k')]),
    ('.//vx:a | .//vy:p', [[D('vx:a')], [D('vy:p')]]),
]
TOP = [
    ('./vx:tl', [C('vx:tl')]),
    ('./vx:tll', [C('vx:tll')]),
    ('./vx:tll[text()="%s"]', [C('vx:tll'), T]),
]
CHOICE = [
    ('.//vx:c1', [D('vx:c1')]),
    ('.//vx:c3/vx:x', [D('vx:c3'), C('vx:x')]),
    ('.//vx:c2l', [D('vx:c2l')]),
]


# nodes inside others
INNER = [
    ('.//vx:x', [D('vx:x')]),
    ('.//vx:in', [D('vx:in')]),
    ('.//vx:pr', [D('vx:pr')]),
    ('.//vx:a', [D('vx:a')]),
]
INNERS = [
    ('.//vx:w', [D('vx:w')]),
    ('.//vx:k', [D('vx:k')]),
    ('.//vx:c', [D('vx:c')]),
    ('.//vx:sl', [D('vx:sl')]),
]
TOPS = [
    ('.', [lambda ns, lit: ns]),
    ('./vx:top', [C('vx:top')]),
]
ALL = [('//*', [lambda ns, lit: ns]),
       ('./vx:top//*', [C('vx:top'), lambda ns, lit:
                        [k for n in ns for k in n.kids]])]


def sc(name, shape, paths, bounds, tier='quick', union=None):
    if union:
        return Scenario(name, filt, bounds + '; unions of %d and %d path '
                        'expressions' % (len(paths), len(union)), tier,
                        shape=shape, paths=paths, union=union)

    return Scenario(name, filt, bounds + '; %d path expressions' %
                    len(paths), tier, shape=shape, paths=paths)


SCENARIOS = [
    sc('leaves', leaves, LEAVES, 'a, in{x}, pr{x}, tl'),
    sc('slist', slist, SLIST, '<=2 sl{v, c{w}}, a'),
    sc('ulist', ulist, ULIST, '<=2 ul{v}, <=2 lu'),
    sc('union leaves', leaves, TOPS + INNER, 'a, in{x}, pr{x}, tl',
       union=INNER),
    sc('union slist', slist, TOPS + INNERS, '<=2 sl{v, c{w}}, a',
       union=INNERS),
    sc('all leaves', leaves, ALL, 'a, in{x}, pr{x}, tl'),
    sc('all slist', slist, ALL, '<=2 sl{v, c{w}}, a'),
    sc('nested', shapes.nested2, NESTED, '<=2 nl{<=1 ul, <=1 lu}'),
    sc('clash', shapes.clash, CLASH, 'vx:lu<=1, vy:lu, vx:b, vy:b<=1'),
    sc('clash_key', shapes.clash_key, CLASHK, '<=1 sl{vy:k}'),
    sc('names', shapes.names, NAMES, 'rn{v, w<=1, rn{v, w<=1}}'),
    sc('names_list', shapes.names_list, ENTRIES, 'rn{<=1 e{<=1 e}}'),
    sc('two_keys', shapes.two_keys, KEYS2, '<=2 s2{v}'),
    sc('modules', shapes.modules, MODS, 'two modules'),
    sc('toplevel', shapes.toplevel, TOP, 'tl, <=2 tll'),
    sc('choice', shapes.choice, CHOICE, 'a, one of three cases'),
]
