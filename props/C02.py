"""A delta is falsy exactly when nothing differs, and a minimum delta
mentions only what differs."""
from symex.runner import Scenario
from symex import ctx as ctxm
from symex.engine import s_and, s_or, s_not, s_iff
from . import lib, shapes
from .common import (CONFIG_MODULES as MODULES, ASSUME, setup, gen, config,
                     show, _o)

ASSUMPTIONS = ASSUME + [
    'Minimality is asserted for diff_type minimum with preferred_replace '
    'merge; entries of ordered-by user lists may be repeated (keys only) to '
    'carry their position.']
OPTS = [_o('merge', 'merge', 'delete'), _o('create', 'merge', 'remove'),
        _o('replace', 'merge', 'delete')]
OTHER = [_o('merge', 'replace', 'delete'), _o('merge', 'merge', 'delete', 0),
         _o('merge', 'merge', 'remove', 1)]


def lookup(n, e):
    """pairs (condition, peer of e among n's children)"""
    if n is None:
        return []
    return [(lib.same_entry(k, e), k) for k in n.kids if k.s is e.s]


def exists(n, e):
    return s_or([c for c, k in lookup(n, e)])


def equal_exists(n, e):
    return s_or([s_and([c, lib.val_eq(k.val, e.val)])
                 for c, k in lookup(n, e)])


def minimal(ctx, e, a, b, out):
    """collect the conditions under which every node of the edit e (children)
    is needed to get from a to b; a, b: peers or None"""
    for c in e.kids:
        s = c.s
        if s.tag in e.s.keytags:
            continue
        if c.op in ('delete', 'remove'):
            out.append((s_and([exists(a, c), s_not(exists(b, c))]),
                        'deletes %s which is not in A or is in B' % s.name))
            continue
        if s.kind == 'leaf':
            out.append((s_and([s_not(equal_exists(a, c)),
                               equal_exists(b, c)]),
                        'sets leaf %s to the value it has' % s.name))
        elif s.kind == 'leaf-list':
            if not s.user:
                out.append((s_and([s_not(exists(a, c)), exists(b, c)]),
                            'repeats leaf-list entry %s' % s.name))
        else:
            pa = [k for cond, k in lookup(a, c) if cond is True or
                  (cond is not False and bool(cond))]
            pb = [k for cond, k in lookup(b, c) if cond is True or
                  (cond is not False and bool(cond))]
            pa, pb = (pa or [None])[0], (pb or [None])[0]
            body = [k for k in c.kids if k.s.tag not in s.keytags]
            if not body and not s.user:
                # a bare mention has to create the node
                out.append((pa is None and pb is not None,
                            'mentions %s without any change' % s.name))
            if c.op in ('create', 'replace'):
                out.append((pa is None or lib.empty_np(pa),
                            'creates %s which exists' % s.name))
                continue
            minimal(ctx, c, pa, pb, out)


def falsy(ctx, env, shape, **gk):
    from ncdiff.config import ConfigDelta
    ta, tb = gen(ctx, shape, 'A', **gk), \
        gen(ctx, shape, 'B', **gk)
    A, B = config(env, ta), config(env, tb)
    na, nb = lib.resolve(ta), lib.resolve(tb)
    kw = ctx.pick('options', OPTS + OTHER)
    d = ConfigDelta(config_src=A, config_dst=B, **kw)
    show(ctx, A=A, B=B, options=kw, delta=d)
    same = lib.tree_eq(na, nb)
    t = bool(d)
    ctx.check(s_iff(t, s_not(same)), 'truth value of the delta')
    ctx.check(s_iff(bool(B - A), s_not(same)), 'truth value of B - A')
    ctx.check(s_iff(bool(A), bool(na.kids)), 'truth value of A')
    e = lib.from_etree(d.nc, edit=True)
    if not t:
        ops = [x for x in walk(e) if x.op not in (None, 'replace')]
        ctx.check(not ops, 'delta of equal configs carries operations')
        # entries of top level ordered-by user lists may be repeated
        for k in e.kids:
            ctx.check(k.s.user and k.s.kind in ('list', 'leaf-list'),
                      'delta of equal configs is not empty: %s' % k.s.name)
        try:
            srv = lib.server_apply(na, e)
        except lib.EditError as x:
            ctx.check(False, 'delta of equal configs is rejected: %s' % x)
            return
        ctx.check(lib.tree_eq(srv, na), 'delta of equal configs has effect')
    else:
        ctx.check(bool(e.kids), 'delta of different configs is empty')
    if kw in OPTS:
        out = []
        minimal(ctx, e, na, nb, out)
        for f, msg in out:
            ctx.check(f, 'minimum delta ' + msg)


def walk(n):
    yield n
    for k in n.kids:
        yield from walk(k)


def sc(name, shape, bounds, tier='quick', **kw):
    return Scenario(name, falsy, bounds, tier, shape=shape, **kw)


SCENARIOS = [
    sc('leafs', shapes.leafs, 'per side: top{a, b(default), in{x}}'),
    sc('deep', shapes.deep, 'per side: in{x, deep{z, dl<=1}}'),
    sc('presence', shapes.presence, 'per side: a, pr{x}'),
    sc('leaflist', shapes.leaflist, 'per side: <=2 ls'),
    sc('leaflist_leaf', shapes.leaflist_leaf, 'per side: a, ls<=1, lu<=1'),
    sc('userleaflist', shapes.userleaflist, 'per side: <=3 lu (user)'),
    sc('slist', shapes.slist, 'per side: <=2 sl{v}'),
    sc('slist_deep', shapes.slist_deep, 'per side: <=1 sl{v, c{w}, vy:v}'),
    sc('ulist_val1', shapes.ulist_val1, 'per side: <=2 ul{v}, first has v'),
    sc('ulist', shapes.ulist, 'per side: <=3 ul', 'thorough'),
    sc('ulist_val', shapes.ulist_val, 'per side: <=2 ul{v}', 'thorough'),
    sc('two_keys_user', shapes.two_keys_user, 'per side: <=2 u2'),
    sc('two_keys1', shapes.two_keys1, 'A: <=1 s2{v}, B: <=2 s2'),
    sc('two_keys', shapes.two_keys, 'per side: <=2 s2', 'thorough'),
    sc('clash', shapes.clash, 'per side: vx:lu<=1, vy:lu, vx:b, vy:b<=1',
       'thorough'),
    sc('clash_lu', shapes.clash_lu, 'per side: vx:lu<=1, vy:lu'),
    sc('clash_b', shapes.clash_b, 'per side: vx:b, vy:b<=1'),
    sc('both_user', shapes.both_user, 'A: 1 or 2, B: 2 lu and ul, any order'),
    sc('clash2', shapes.clash2, 'per side: vx:in{x}, vy:in<=2'),
    sc('clash_key', shapes.clash_key, 'A: <=1, B: <=2 sl{vy:k}'),
    sc('ulist_two', shapes.ulist_two, 'per side: <=2 ul, first {v, w}'),
    sc('names', shapes.names, 'per side: rn{v, w<=1, rn{v, w<=1}}'),
    sc('names_list', shapes.names_list, 'per side: rn{<=1 e{<=1 e}}'),
    sc('names_list2', lambda g, r: shapes.names_list(g, r, 2),
       'rn{<=2 e{<=2 e}}', 'thorough'),
    sc('nested', shapes.nested, 'per side: <=1 nl{<=2 ul}'),
    sc('choice1', shapes.choice1, 'per side: one of three cases'),
    sc('choice', shapes.choice, 'per side: a, one of three cases',
       'thorough'),
    sc('toplevel', shapes.toplevel, 'per side: tl, <=2 tll (user)'),
    sc('toplevel_list', shapes.toplevel_list, 'per side: tl, <=2 tul'),
    sc('modules1', shapes.modules1, 'per side: vx:a, vy:a, ytop{p}'),
    sc('modules', shapes.modules, 'per side: two modules', 'thorough'),
    sc('ulist_at', shapes.ulist_at, 'per side: <=2 ul with leaf a at any '
       'position'),
    sc('leaflist_at', shapes.leaflist_at, 'per side: <=2 lu with leaf a at '
       'any position'),
    sc('key2', shapes.key2, 'A: <=1, B: <=2 s2, keys of 1 or 3 characters '
       'including spaces', dom=ctxm.WIDE, lens=(1, 3)),
    sc('text', shapes.text, 'per side: a, <=1 ls, 1 or 2 characters '
       'including spaces', dom=ctxm.WIDE, lens=(1, 2)),
    sc('empty_leaf', shapes.empty_leaf, 'per side: em, a possibly empty'),
    sc('empty_key', lambda g, r: shapes.ulist(g, r, 2),
       'per side: <=2 ul, keys may be empty', empty=True),
    sc('id_leaf', shapes.id_leaf, 'per side: identityref in 4 spellings'),
    sc('id_key', lambda g, r: shapes.id_key(g, r, hi=1),
       'per side: <=1 idk, identityref key'),
]
