"""Comparison operators are the semantic inclusion order of configs."""
from symex.runner import Scenario
from symex import ctx as ctxm
from symex.engine import s_and, s_or, s_not, s_iff
from . import lib, shapes
from .common import (CONFIG_MODULES as MODULES, ASSUME, setup, gen, config,
                     show)

ASSUMPTIONS = ASSUME + [
    'Transitivity and antisymmetry follow from agreement with the oracle '
    'order (lib.tree_le), which is a partial order by construction.']


def compare(ctx, env, shape, **gk):
    ta, tb = gen(ctx, shape, 'A', **gk), \
        gen(ctx, shape, 'B', **gk)
    A, B = config(env, ta), config(env, tb)
    na, nb = lib.resolve(ta), lib.resolve(tb)
    show(ctx, A=A, B=B)
    le, ge = lib.tree_le(na, nb), lib.tree_le(nb, na)
    eq = lib.tree_eq(na, nb)
    ctx.check(s_iff(s_and([le, ge]), eq), 'oracle: <= both ways is equality')
    for name, got, want in (
            ('<=', A <= B, le), ('>=', A >= B, ge), ('==', A == B, eq),
            ('!=', A != B, s_not(eq)),
            ('<', A < B, s_and([le, s_not(ge)])),
            ('>', A > B, s_and([ge, s_not(le)]))):
        ctx.check(got is True or got is False, name + ' is not a bool')
        ctx.check(s_iff(got, want), 'A %s B' % name)


def reordered(ctx, env, shape):
    """sibling order of different nodes and of system ordered entries does
    not matter"""
    ta = gen(ctx, shape, 'A')
    tb = ta.copy()

    def rev(n):
        ks = list(n.kids)
        for k in ks:
            rev(k)
        by = {}
        for k in ks:
            by.setdefault(k.s.tag, []).append(k)
        out = []
        for t in reversed(list(by)):
            g = by[t]
            out += g if g[0].s.user else g[::-1]
        n.kids[:] = out
    rev(tb)
    prefixed = ctx.bool('prefixed')
    from ncdiff.config import Config
    A = config(env, ta)
    B = Config(env, lib.to_etree(tb, prefixed=prefixed))
    show(ctx, A=A, B=B)
    ctx.check((A == B) is True, 'reordered config is equal')
    ctx.check((A <= B) is True and (A >= B) is True, 'reordered: <= and >=')
    ctx.check(not (A != B) and not (A < B) and not (A > B),
              'reordered: != < >')
    ctx.check(not (B - A), 'reordered: delta is falsy')


def sc(name, shape, bounds, tier='quick', **kw):
    return Scenario(name, compare, bounds, tier, shape=shape, **kw)


SCENARIOS = [
    sc('leafs', shapes.leafs, 'per side: top{a, b(default), in{x}}'),
    sc('deep', shapes.deep, 'per side: in{x, deep{z, dl<=1}}'),
    sc('presence', shapes.presence, 'per side: a, pr{x}'),
    sc('leaflist', shapes.leaflist, 'per side: <=2 ls'),
    sc('leaflist_leaf', shapes.leaflist_leaf, 'per side: a, ls<=1, lu<=1'),
    sc('userleaflist', shapes.userleaflist, 'per side: <=3 lu (user)'),
    sc('userleaflist4', lambda g, r: shapes.userleaflist(g, r, 4),
       'per side: <=4 lu (user)', 'thorough'),
    sc('order', shapes.order, 'A: some of 4 lu in order, B: in any order'),
    sc('order list', shapes.order_list, 'A: some of 4 ul in order, B: in any '
       'order'),
    sc('slist', shapes.slist, 'per side: <=2 sl{v}'),
    sc('slist_deep', shapes.slist_deep, 'per side: <=1 sl{v, c{w}, vy:v}'),
    sc('ulist', shapes.ulist, 'per side: <=3 ul'),
    sc('ulist4', lambda g, r: shapes.ulist(g, r, 4), 'per side: <=4 ul',
       'thorough'),
    sc('ulist_val', shapes.ulist_val, 'per side: <=2 ul{v}'),
    sc('two_keys', shapes.two_keys, 'per side: <=2 s2'),
    sc('two_keys_user', shapes.two_keys_user, 'per side: <=2 u2'),
    sc('both_user', shapes.both_user, 'A: 1 or 2, B: 2 lu and ul, any order'),
    sc('clash', shapes.clash, 'per side: vx:lu<=1, vy:lu, vx:b, vy:b<=1'),
    sc('clash2', shapes.clash2, 'per side: vx:in{x}, vy:in<=2'),
    sc('clash_key', shapes.clash_key, 'A: <=1, B: <=2 sl{vy:k}'),
    sc('ulist_two', shapes.ulist_two, 'per side: <=2 ul, first {v, w}'),
    sc('names', shapes.names, 'per side: rn{v, w<=1, rn{v, w<=1}}'),
    sc('names_list', shapes.names_list, 'per side: rn{<=1 e{<=1 e}}'),
    sc('names_list2', lambda g, r: shapes.names_list(g, r, 2),
       'rn{<=2 e{<=2 e}}', 'thorough'),
    sc('nested', shapes.nested, 'per side: <=1 nl{<=2 ul}'),
    sc('nested2', shapes.nested2, 'per side: <=2 nl{<=1 ul, <=1 lu}',
       'thorough'),
    sc('nested_leaflist', shapes.nested_leaflist, 'per side: <=1 nl{<=2 lu}'),
    sc('choice', shapes.choice, 'per side: a, one of three cases'),
    sc('toplevel', shapes.toplevel, 'per side: tl, <=2 tll (user)'),
    sc('toplevel_list', shapes.toplevel_list, 'per side: tl, <=2 tul'),
    sc('modules', shapes.modules, 'per side: two modules'),
    sc('ulist_at', shapes.ulist_at, 'per side: <=2 ul with leaf a at any '
       'position'),
    sc('leaflist_at', shapes.leaflist_at, 'per side: <=2 lu with leaf a at '
       'any position'),
    sc('key2', shapes.key2, 'A: <=1, B: <=2 s2, keys of 1 or 3 characters '
       'including spaces', dom=ctxm.WIDE, lens=(1, 3)),
    sc('text', shapes.text, 'per side: a, <=1 ls, 1 or 2 characters '
       'including spaces', dom=ctxm.WIDE, lens=(1, 2)),
    sc('text2', shapes.leaflist_text, 'per side: <=2 ls or lu, 1 or 2 '
       'characters including spaces', dom=ctxm.WIDE, lens=(1, 2)),
    sc('empty_leaf', shapes.empty_leaf, 'per side: em, a possibly empty'),
    sc('empty_key', lambda g, r: shapes.ulist(g, r, 2),
       'per side: <=2 ul, keys may be empty', empty=True),
    sc('id_leaf', shapes.id_leaf, 'per side: identityref in 4 spellings'),
    sc('id_key', shapes.id_key, 'per side: <=2 idk, identityref key'),
    sc('id_leaflist', shapes.id_leaflist, 'per side: <=2 identityrefs'),
    Scenario('re_slist', reordered, 'A: <=2 sl{v}, B: permuted',
             shape=shapes.slist),
    Scenario('re_mix', reordered, 'A: a, ls<=2, lu<=2, ul<=2',
             shape=shapes.mix),
    Scenario('re_nested', reordered, 'A: <=2 nl', shape=shapes.nested2),
    Scenario('re_modules', reordered, 'A: two modules', shape=shapes.modules),
]
