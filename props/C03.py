"""Deltas can be undone, and all ways to apply one agree."""
from symex.runner import Scenario
from . import lib, shapes
from .common import (CONFIG_MODULES as MODULES, ASSUME, setup, gen, config,
                     show, options, QUICK)

ASSUMPTIONS = ASSUME


def undo(ctx, env, shape, empty=False, opts=None):
    from lxml import etree
    from ncdiff.config import ConfigDelta
    ta, tb = gen(ctx, shape, 'A', empty=empty), \
        gen(ctx, shape, 'B', empty=empty)
    A, B = config(env, ta), config(env, tb)
    na, nb = lib.resolve(ta), lib.resolve(tb)
    kw = options(ctx, opts)
    d = ConfigDelta(config_src=A, config_dst=B, **kw)
    show(ctx, A=A, B=B, options=kw, delta=d)
    how = ctx.choice('how', 4)
    if how == 0:
        u = -d
        ctx.check(lib.tree_eq(lib.from_etree((B + u).ele), na),
                  'B + -(B - A) differs from A')
        ctx.check(u.config_src is B and u.config_dst is A,
                  'the negated delta has wrong ends')
    elif how == 1:
        ctx.check(lib.tree_eq(lib.from_etree((B - d).ele), na),
                  'B - (B - A) differs from A')
    elif how == 2:
        ctx.check(lib.tree_eq(lib.from_etree((d + A).ele), nb),
                  '(B - A) + A differs from B')
        ctx.check(+d is d, '+delta is another delta')
    else:
        # the delta as received by someone else: only its edit-config content
        x = d.nc
        if ctx.bool('as string'):
            x = etree.tostring(x, encoding='unicode')
        e = ConfigDelta(config_src=A, delta=x)
        ctx.check(lib.tree_eq(lib.from_etree(e.config_dst.ele), nb),
                  'destination of a delta built from edit-config content')
        ctx.check(lib.tree_eq(lib.from_etree((e.config_dst - e).ele), na),
                  'undo of a delta built from edit-config content')


def sc(name, shape, bounds, tier='quick', **kw):
    return Scenario(name, undo, bounds, tier, shape=shape, **kw)


SCENARIOS = [
    sc('leafs', shapes.leafs, 'per side: top{a, b(default), in{x}}',
       'thorough'),
    sc('leafs1', shapes.leafs1, 'per side: top{a, in{x}}'),
    sc('deep', shapes.deep, 'per side: in{x, deep{z, dl<=1}}', 'thorough'),
    sc('presence', shapes.presence, 'per side: a, pr{x}'),
    sc('leaflist', shapes.leaflist, 'per side: <=2 ls'),
    sc('userleaflist', shapes.userleaflist, 'per side: <=3 lu', 'thorough'),
    sc('userleaflist2', lambda g, r: shapes.userleaflist(
        g, r, 2), 'per side: <=2 lu'),
    sc('order list 3', shapes.order_list3, 'A: some of 3 ul in order, B: in '
       'any order, one entry changes', opts=[QUICK[0], QUICK[2]]),
    sc('slist', shapes.slist, 'per side: <=2 sl{v}', 'thorough'),
    sc('slist1', shapes.slist1, 'A: <=1, B: <=2 sl, first has v'),
    sc('ulist', lambda g, r: shapes.ulist(g, r, 3 if g.side == 'A' else 2),
       'A: <=3, B: <=2 ul'),
    sc('two_keys_user', lambda g, r: shapes.two_keys_user(g, r, g.side),
       'A: <=1, B: <=2 u2'),
    sc('clash', shapes.clash, 'per side: vx:lu<=1, vy:lu, vx:b, vy:b<=1',
       'thorough'),
    sc('clash_lu', shapes.clash_lu, 'per side: vx:lu<=1, vy:lu'),
    sc('clash_b', shapes.clash_b, 'per side: vx:b, vy:b<=1'),
    sc('both_user', shapes.both_user, 'A: 1 or 2, B: 2 lu and ul, any order'),
    sc('clash2', shapes.clash2, 'per side: vx:in{x}, vy:in<=2'),
    sc('clash_key', shapes.clash_key, 'A: <=1, B: <=2 sl{vy:k}'),
    sc('names', shapes.names, 'per side: rn{v, w<=1, rn{v, w<=1}}',
       'thorough'),
    sc('names_list', shapes.names_list, 'per side: rn{<=1 e{<=1 e}}'),
    sc('names_list2', lambda g, r: shapes.names_list(g, r, 2),
       'rn{<=2 e{<=2 e}}', 'thorough'),
    sc('nested', shapes.nested, 'per side: <=1 nl{<=2 ul}'),
    sc('choice1', shapes.choice1, 'per side: one of three cases'),
    sc('toplevel', shapes.toplevel, 'per side: tl, <=2 tll', 'thorough'),
    sc('toplevel_list', shapes.toplevel_list, 'per side: tl, <=2 tul',
       'thorough'),
    sc('toplevel1', lambda g, r: g.leaflist(
        r, 'vx:tll', 2), 'per side: <=2 tll'),
    sc('modules', shapes.modules, 'per side: two modules', 'thorough'),
    sc('modules1', shapes.modules1, 'per side: vx:a, vy:a, ytop{p}',
       'thorough'),
    sc('empty_leaf', shapes.empty_leaf, 'per side: em, a possibly empty'),
    sc('id_leaf', shapes.id_leaf1, 'per side: identityref in 4 spellings'),
]
