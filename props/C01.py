"""A + (B - A) == B, by the library and by an independent edit-config server."""
from symex.runner import Scenario
from symex import ctx as ctxm
from . import lib, shapes
from .common import (CONFIG_MODULES as MODULES, ASSUME, setup, options, gen,
                     config, show, QUICK)

ASSUMPTIONS = ASSUME + [
    'The NETCONF server is the interpreter lib.server_apply of RFC 6241 '
    'section 7.2 and RFC 7950 sections 7.5.8 to 7.9, processing elements in '
    'document order.',
    'Keys that contain both kinds of quotes are outside the bounds: the '
    'protocol cannot express them in yang:key.',
]


def roundtrip(ctx, env, shape, opts=None, **gk):
    from ncdiff.config import ConfigDelta
    ta = gen(ctx, shape, 'A', **gk)
    tb = gen(ctx, shape, 'B', **gk)
    A, B = config(env, ta), config(env, tb)
    na, nb = lib.resolve(ta), lib.resolve(tb)
    kw = options(ctx, opts)
    d = ConfigDelta(config_src=A, config_dst=B, **kw)
    nc = d.nc
    show(ctx, A=A, B=B, options=kw, delta=d)
    C = A + d
    got = lib.from_etree(C.ele)
    ctx.check(lib.tree_eq(got, nb), 'A + (B - A) differs from B')
    ctx.check(lib.distinct(got), 'A + (B - A) has duplicate nodes')
    if lib.keys_first(na) and lib.keys_first(nb):
        ctx.check(lib.keys_first(got), 'list keys are not in front')
        ctx.check(lib.keys_first(lib.from_etree(nc, edit=True)),
                  'list keys are not in front in the delta')
    try:
        srv = lib.server_apply(na, lib.from_etree(nc, edit=True))
    except lib.EditError as e:
        ctx.check(False, 'a NETCONF server rejects the delta: %s' % e)
        return
    ctx.check(lib.tree_eq(srv, nb),
              'a NETCONF server ends up in a different config')


def known_prefix(ctx, env):
    """Prefixes inside values: known finding C01-prefix."""
    from ncdiff.config import ConfigDelta
    ta, tb = lib.root(), lib.root()
    ta.add('vx:top').add('vx:a', 'x')
    t = tb.add('vx:top')
    k = t.add('vx:idr', 'p:id-a')
    hoisted = ctx.bool('hoisted')
    url = ctx.pick('url', ['urn:vx', 'urn:vy'])
    if hoisted:
        t.ns = {None: 'urn:vx', 'p': url}
    else:
        k.ns = {'p': url}
    A, B = config(env, ta), config(env, tb)
    d = ConfigDelta(config_src=A, config_dst=B)
    show(ctx, A=A, B=B, delta=d)
    ctx.region('C01-prefix', hoisted or url == 'urn:vx')
    C = A + d
    ctx.check(lib.tree_eq(lib.from_etree(C.ele), lib.resolve(tb)),
              'A + (B - A) differs from B')


def known_insert(ctx, env):
    """Insert points of user ordered identityref values: C01-insert."""
    from ncdiff.config import ConfigDelta
    ta, tb = gen(ctx, shapes.id_user_leaflist1, 'A'), \
        gen(ctx, shapes.id_user_leaflist, 'B')
    A, B = config(env, ta), config(env, tb)
    na, nb = lib.resolve(ta), lib.resolve(tb)
    d = ConfigDelta(config_src=A, config_dst=B)
    show(ctx, A=A, B=B, delta=d)
    two = tb.kids[0].kids
    ctx.region('C01-insert', len(two) > 1 and
               any(':' in k.val for k in two))
    C = A + d
    ctx.check(lib.tree_eq(lib.from_etree(C.ele), nb),
              'A + (B - A) differs from B')
    try:
        srv = lib.server_apply(na, lib.from_etree(d.nc, edit=True))
    except lib.EditError as e:
        ctx.check(False, 'a NETCONF server rejects the delta: %s' % e)
        return
    ctx.check(lib.tree_eq(srv, nb),
              'a NETCONF server ends up in a different config')


ORDER = [QUICK[0], QUICK[6]]


def sc(name, shape, bounds, tier='quick', **kw):
    return Scenario(name, roundtrip, bounds, tier, shape=shape, **kw)


SCENARIOS = [
    sc('leafs', shapes.leafs, 'per side: top{a, b(default), in{x}}'),
    sc('deep', shapes.deep, 'per side: in{x, deep{z, dl<=1}}'),
    sc('presence', shapes.presence, 'per side: a, presence container pr{x}'),
    sc('leaflist', shapes.leaflist, 'per side: <=2 ls'),
    sc('leaflist_leaf', shapes.leaflist_leaf, 'per side: a, ls<=1, lu<=1'),
    sc('userleaflist', shapes.userleaflist, 'per side: <=3 lu (user)'),
    sc('slist', shapes.slist, 'per side: <=2 sl{v}'),
    sc('slist_deep', shapes.slist_deep, 'per side: <=1 sl{v, c{w}, vy:v}'),
    sc('ulist', shapes.ulist, 'per side: <=3 ul (user)'),
    sc('ulist_val', shapes.ulist_val, 'per side: <=2 ul{v}', 'thorough'),
    sc('ulist_val1', shapes.ulist_val1, 'per side: <=2 ul{v}, first has v'),
    sc('two_keys', shapes.two_keys, 'per side: <=2 s2{v} two keys',
       'thorough'),
    sc('two_keys1', shapes.two_keys1, 'A: <=1 s2{v}, B: <=2 s2, two keys'),
    sc('two_keys_user', shapes.two_keys_user, 'per side: <=2 u2 two keys'),
    sc('clash', shapes.clash, 'per side: vx:lu<=1, vy:lu, vx:b, vy:b<=1',
       'thorough'),
    sc('clash_lu', shapes.clash_lu, 'per side: vx:lu<=1, vy:lu'),
    sc('clash_b', shapes.clash_b, 'per side: vx:b, vy:b<=1'),
    sc('both_user', shapes.both_user, 'A: 1 or 2, B: 2 lu and ul, any order'),
    sc('clash2', shapes.clash2, 'per side: vx:in{x}, vy:in<=2'),
    sc('clash_key', shapes.clash_key, 'A: <=1, B: <=2 sl{vy:k}'),
    sc('ulist_two', shapes.ulist_two, 'per side: <=2 ul, first {v, w}'),
    sc('names', shapes.names, 'per side: rn{v, w<=1, rn{v, w<=1}}'),
    sc('names_list', shapes.names_list, 'per side: rn{<=1 e{<=1 e}}'),
    sc('names_list2', lambda g, r: shapes.names_list(g, r, 2),
       'rn{<=2 e{<=2 e}}', 'thorough'),
    sc('nested', shapes.nested, 'per side: <=1 nl{<=2 ul}'),
    sc('nested_leaflist', shapes.nested_leaflist, 'per side: <=1 nl{<=2 lu}'),
    sc('choice', shapes.choice, 'per side: a and one of three cases',
       'thorough'),
    sc('choice1', shapes.choice1, 'per side: one of three cases'),
    sc('nested_choice', shapes.nested_choice, 'per side: a, nested cases',
       'thorough'),
    sc('nested_choice1', shapes.nested_choice1, 'per side: nested cases'),
    sc('toplevel', shapes.toplevel, 'per side: tl, <=2 tll (user)'),
    sc('toplevel_list', shapes.toplevel_list, 'per side: tl, <=2 tul (user)'),
    sc('topchoice', shapes.topchoice, 'per side: tl, choice at the top level'),
    sc('modules', shapes.modules, 'per side: two modules', 'thorough'),
    sc('modules1', shapes.modules1, 'per side: vx:a, vy:a, ytop{p}'),
    sc('quotes_list', lambda g, r: shapes.ulist(g, r, 2),
       'per side: <=2 ul, keys any printable character', dom=ctxm.ANY),
    sc('quotes_leaflist', lambda g, r: shapes.userleaflist(g, r, 2),
       'per side: <=2 lu, any printable character', dom=ctxm.ANY),
    sc('empty_key', lambda g, r: shapes.ulist(g, r, 2),
       'per side: <=2 ul, keys may be empty', empty=True),
    sc('empty_value', lambda g, r: shapes.userleaflist(g, r, 2),
       'per side: <=2 lu, values may be empty', empty=True),
    sc('ulist_at', shapes.ulist_at, 'per side: <=2 ul with leaf a at any '
       'position'),
    sc('leaflist_at', shapes.leaflist_at, 'per side: <=2 lu with leaf a at '
       'any position'),
    sc('key2', shapes.key2, 'A: <=1, B: <=2 s2, keys of 1 or 3 characters '
       'including spaces', dom=ctxm.WIDE, lens=(1, 3)),
    sc('order', shapes.order, 'A: some of 4 lu in order, B: in any order',
       opts=ORDER),
    sc('order list', shapes.order_list, 'A: some of 4 ul in order, B: in any '
       'order', opts=ORDER),
    sc('order list 3', shapes.order_list3, 'A: some of 3 ul in order, B: in '
       'any order, one entry changes'),
    sc('order 5', shapes.order5, 'A: some of 5 lu in order, B: in any order',
       'thorough', opts=ORDER),
    sc('text', shapes.text, 'per side: a, <=1 ls, 1 or 2 characters '
       'including spaces', dom=ctxm.WIDE, lens=(1, 2)),
    sc('empty_leaf', shapes.empty_leaf, 'per side: em, a possibly empty'),
    sc('id_leaf', shapes.id_leaf, 'per side: a, identityref in 4 spellings'),
    sc('id_leaflist', lambda g, r: shapes.id_leaflist(g, r, hi=1),
       'per side: <=1 identityref leaf-list entry'),
    sc('id_leaflist2', shapes.id_leaflist,
       'per side: <=2 identityref leaf-list entries', 'thorough'),
    sc('id_key', lambda g, r: shapes.id_key(g, r, hi=1),
       'per side: <=1 idk, identityref key'),
    sc('id_key2', shapes.id_key, 'per side: <=2 idk, identityref key',
       'thorough'),
    Scenario('known_prefix', known_prefix, 'prefix p inside idr, declared '
             'on the leaf or on top, bound to either module'),
    Scenario('known_insert', known_insert, 'A <=1, B <=2 user ordered '
             'identityrefs'),
]
