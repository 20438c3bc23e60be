"""Applying an edit-config to a config does what a NETCONF server does."""
from lxml import etree
from symex.runner import Scenario
from symex.engine import s_and, s_or, s_not
from symex.ctx import ANY, TEXT, WIDE, Domain
from . import lib, shapes
from .common import (CONFIG_MODULES as MODULES, ASSUME, setup, gen, config,
                     show)

ASSUMPTIONS = ASSUME + [
    'The reference is lib.server_apply (RFC 6241 section 7.2, RFC 7950 '
    'sections 7.5.8 to 7.9).',
    'Outside the bounds, because the RFCs leave them open or ncdiff does not '
    'claim them: operations below a create, replace, delete or remove; '
    'create and delete on non-presence containers; an edit that has two '
    'elements for the same node.',
]
KEY = Domain('printable ASCII and space except quote', 32, 126, exclude="'")
OPS = [None, 'merge', 'create', 'replace', 'delete', 'remove', 'bogus']


def put_ops(ctx, e, path='E', ops=OPS, inside=None):
    """symbolic operations on the edit tree, below merge only, or those of
    inside below create and replace"""
    for i, c in enumerate(e.kids):
        if c.s.tag in e.s.keytags:
            continue
        o = ops
        if c.s.np:
            o = [x for x in ops if x not in ('create', 'delete')]
        p = '%s/%s[%d]' % (path, c.s.name, i)
        c.op = ctx.pick('op ' + p, o)
        if c.op in (None, 'merge'):
            put_ops(ctx, c, p, ops, inside)
        elif inside and c.op in ('create', 'replace'):
            put_ops(ctx, c, p, inside, inside)


def outcome(ctx, env, A, na, te, how='element'):
    from ncdiff.config import Config, ConfigDelta
    from ncdiff.errors import ConfigDeltaError
    el = lib.to_etree(te)
    show(ctx, A=A, edit=etree.tostring(el, pretty_print=True).decode())
    e = lib.from_etree(el, edit=True)
    try:
        want = lib.server_apply(na, e)
        err = None
    except lib.EditError as x:
        want, err = None, x
    try:
        if how == 'element':
            C = A + el
        else:
            C = ConfigDelta(config_src=A, delta=el).config_dst
    except ConfigDeltaError as x:
        ctx.check(err is not None,
                  'rejected although a server accepts it: %s' % x)
        return
    ctx.check(err is None, 'accepted although a server rejects it: %s' % err)
    if err is None:
        got = lib.from_etree(C.ele)
        ctx.check(lib.tree_eq(got, lib.normalise(want)),
                  'result differs from the NETCONF server')
        ctx.check(lib.distinct(got), 'result has duplicate nodes')
        if lib.keys_first(na) and lib.keys_first(e):
            ctx.check(lib.keys_first(got), 'list keys are not in front')


def edit(ctx, env, shape, eshape=None, how='element', ops=OPS, inside=None):
    ta, te = gen(ctx, shape, 'A'), gen(ctx, eshape or shape, 'E')
    for n in lib_walk(te):
        ctx.assume(lib.one_case(n))
    put_ops(ctx, te, ops=ops, inside=inside)
    A = config(env, ta)
    outcome(ctx, env, A, lib.resolve(ta), te, how)


def lib_walk(n):
    yield n
    for k in n.kids:
        yield from lib_walk(k)


def merge(ctx, env, shape, **gk):
    """Config + Config is a merge; so is + of an edit without operations"""
    from ncdiff.config import Config
    ta, tb = gen(ctx, shape, 'A', **gk), gen(ctx, shape, 'B', **gk)
    A, B = config(env, ta), config(env, tb)
    na, nb = lib.resolve(ta), lib.resolve(tb)
    C = A + B
    show(ctx, A=A, B=B, C=C)
    got = lib.from_etree(C.ele)
    want = lib.server_apply(na, lib.from_etree(B.ele, edit=True))
    ctx.check(lib.tree_eq(got, want), 'A + B is not the merge of B into A')
    ctx.check(lib.distinct(got), 'A + B has duplicate nodes')
    if lib.keys_first(na) and lib.keys_first(nb):
        ctx.check(lib.keys_first(got), 'list keys are not in front')
    ctx.check((C + B) == C, 'merging B twice changes the result')
    E = Config(env)
    ctx.check((A + E) == A and (E + A) == A, 'empty config is not neutral')


def around(g, p, top):
    """other nodes before, between and after the entries"""
    if g.b('has other'):
        shapes.at(g, p, p.add('vx:tl' if top else 'vx:a', 'x'))


INS = [None, 'first', 'last', 'before', 'after', 'before?', 'after?']


def insert_leaflist(ctx, env, hi, lname='vx:lu', dom=lib.ALNUM, **gk):
    ta, te = lib.root(), lib.root()
    ga, ge, gp = [lib.Gen(ctx, x, dom=dom, **gk) for x in 'AEP']
    top = lname == 'vx:tll'
    pa = ta if top else ta.add('vx:top')
    pe = te if top else te.add('vx:top')
    ga.leaflist(pa, lname, hi)
    around(ga, pa, top)
    c = pe.add(lname, ge.s('v'))
    c.op = ctx.pick('op', [None, 'merge', 'create', 'replace', 'delete',
                           'remove'])
    ins = ctx.pick('insert', INS)
    if ins:
        c.ins = ins.rstrip('?')
        if ins in ('before', 'after'):
            c.pt = ('value', gp.s('point'))
            # relative to itself: undefined
            ctx.assume(s_not(lib.val_eq(c.pt[1], c.val)))
    A = config(env, ta)
    if c.op in ('delete', 'remove') and ins:
        ctx.assume(False)
    outcome(ctx, env, A, lib.resolve(ta), te)


def insert_list(ctx, env, hi, lname='vx:ul', dom=lib.ALNUM, quote="'", **gk):
    ta, te = lib.root(), lib.root()
    ga, ge, gp = [lib.Gen(ctx, x, dom=dom, **gk) for x in 'AEP']
    top = lname == 'vx:tul'
    pa = ta if top else ta.add('vx:top')
    pe = te if top else te.add('vx:top')
    ga.list(pa, lname, hi)
    around(ga, pa, top)
    s = pa.s.find(lname)
    c = pe.add(lname)
    for k in s.key:
        c.add('vx:' + k, ge.s('key ' + k))
    if ctx.bool('E.has v'):
        c.add('vx:v', ge.s('v'))
    c.op = ctx.pick('op', [None, 'create', 'replace', 'delete'])
    ins = ctx.pick('insert', INS)
    if ins:
        c.ins = ins.rstrip('?')
        if ins in ('before', 'after'):
            if ctx.bool('prefixed'):
                c.ns = {None: 'urn:vx', 'q': 'urn:vx'}
                p = 'q:'
            else:
                p = ''
            pt = [gp.s('point ' + k) for k in s.key]
            ctx.assume(s_not(s_and([lib.val_eq(a, b.val) for a, b in
                                    zip(pt, [c.of(t)[0]
                                             for t in s.keytags])])))
            c.pt = ('key', ''.join('[%s%s=%s%s%s]' % (p, k, quote, v, quote)
                                   for k, v in zip(s.key, pt)))
    if c.op == 'delete' and ins:
        ctx.assume(False)
    A = config(env, ta)
    outcome(ctx, env, A, lib.resolve(ta), te)


def insert_twice(ctx, env, hi, lname='vx:lu', ops=(None, 'create', 'delete')):
    """the second entry of an edit meets what the first one left"""
    ta, te = lib.root(), lib.root()
    ga, ge = lib.Gen(ctx, 'A'), lib.Gen(ctx, 'E')
    pa, pe = ta.add('vx:top'), te.add('vx:top')
    if lname == 'vx:lu':
        ga.leaflist(pa, lname, hi)
    else:
        ga.list(pa, lname, hi)
    vals = []
    for i in range(2):
        v = ge.s('v%d' % i)
        for w in vals:
            ctx.assume(s_not(lib.val_eq(v, w)))
        vals.append(v)
        c = pe.add(lname, v if lname == 'vx:lu' else None)
        if lname != 'vx:lu':
            c.add('vx:k', v)
        c.op = ctx.pick('op%d' % i, list(ops))
        if c.op == 'delete':
            continue
        c.ins = ctx.pick('insert%d' % i, [None, 'first', 'before', 'after'])
        if c.ins in ('before', 'after'):
            q = ctx.str('point%d' % i, 1, lib.ALNUM)
            ctx.assume(s_not(lib.val_eq(q, v)))
            c.pt = ('value', q) if lname == 'vx:lu' else \
                ('key', "[k='%s']" % q)
    A = config(env, ta)
    outcome(ctx, env, A, lib.resolve(ta), te)


def sc(name, shape, bounds, tier='quick', fn=edit, **kw):
    return Scenario(name, fn, bounds, tier, shape=shape, **kw)


def one_leaf(g, r):
    g.leaf(r.add('vx:top'), 'vx:a')


def in_x(g, r):
    t = r.add('vx:top')
    i = t.add('vx:in')
    g.leaf(i, 'vx:x')
    if g.side == 'A':
        g.leaf(i, 'vx:y')


def pr1(g, r):
    t = r.add('vx:top')
    if g.b('has pr'):
        g.leaf(t.add('vx:pr'), 'vx:x')


def sl1(g, r):
    t = r.add('vx:top')

    def body(g, e, p):
        if '[0]' in p:
            g.leaf(e, 'vx:v', p)
    g.list(t, 'vx:sl', 2 if g.side == 'A' else 1, body)


def ls2(g, r):
    g.leaflist(r.add('vx:top'), 'vx:ls', 2)


def s2_1(g, r):
    g.list(r.add('vx:top'), 'vx:s2', 1)


def top1(g, r):
    g.leaf(r, 'vx:tl')
    g.leaflist(r, 'vx:tll', 1)


SOME = [None, 'create', 'replace', 'delete', 'remove']
SCENARIOS = [
    sc('leaf', one_leaf, 'A: a; edit: top{a} with any operation'),
    sc('leaf_delta', one_leaf, 'ConfigDelta(delta=...): top{a}', how='delta'),
    sc('container', in_x, 'A: in{x, y}; edit: in{x}'),
    sc('presence', pr1, 'A, edit: pr{x}'),
    sc('list', sl1, 'A: <=2 sl{v}; edit: <=1 sl{v}'),
    sc('list_delta', sl1, 'ConfigDelta(delta=...): sl', how='delta',
       ops=SOME),
    sc('leaflist', ls2, 'A, edit: <=2 ls', ops=SOME),
    sc('two_keys', s2_1, 'A, edit: <=1 s2'),
    sc('choice', shapes.choice1, 'A, edit: one case of three',
       ops=[None, 'replace', 'remove']),
    sc('nested_choice', shapes.nested_choice1, 'A, edit: nested choice',
       ops=[None, 'replace', 'remove']),
    sc('clash', shapes.clash, 'A, edit: vx:lu<=1, vy:lu, vx:b, vy:b<=1',
       'thorough', ops=[None, 'replace', 'remove']),
    sc('clash_lu', shapes.clash_lu, 'A, edit: vx:lu<=1, vy:lu', ops=SOME),
    sc('clash_b', shapes.clash_b, 'A, edit: vx:b, vy:b<=1', ops=SOME),
    sc('clash_key', shapes.clash_key, 'A: <=1, edit: <=2 sl{vy:k}', ops=SOME),
    sc('inside', shapes.names1, 'A, edit: rn{v, rn{v}}, operations inside '
       'created and replaced nodes', inside=OPS),
    sc('inside_presence', pr1, 'A, edit: pr{x}, likewise', inside=OPS),
    sc('inside_list', sl1, 'A: <=2 sl{v}, edit: <=1 sl{v}, likewise',
       inside=OPS),
    sc('inside_list2', shapes.names_list, 'A, edit: rn{<=1 e{<=1 e}}, '
       'likewise', inside=OPS),
    sc('names', shapes.names1, 'A, edit: rn{v, rn{v}}', ops=SOME),
    sc('names_list', shapes.names_list, 'A, edit: rn{<=1 e{<=1 e}}',
       ops=SOME),
    sc('toplevel', top1, 'A, edit: tl, <=1 tll', ops=SOME),
    sc('modules', lambda g, r: (g.leaf(r.add('vx:top'), 'vy:a'),
                                g.leaf(r.add('vy:ytop'), 'vy:p')),
       'A, edit: augmented leaf, second module', ops=SOME),
    Scenario('insert_leaflist', insert_leaflist,
             'A: <=2 lu; edit: one lu entry, insert anywhere', hi=2),
    Scenario('insert_leaflist3', insert_leaflist,
             'A: <=3 lu; edit: one lu entry', 'thorough', hi=3),
    Scenario('insert_top_leaflist', insert_leaflist, 'A: <=2 tll', hi=2,
             lname='vx:tll'),
    Scenario('insert_list', insert_list,
             'A: <=2 ul; edit: one ul entry, insert anywhere', hi=2),
    Scenario('insert_list3', insert_list, 'A: <=3 ul', 'thorough', hi=3),
    Scenario('insert_list2k', insert_list, 'A: <=2 u2 (two keys)', hi=2,
             lname='vx:u2', quote='"'),
    Scenario('insert_top_list', insert_list, 'A: <=2 tul', hi=2,
             lname='vx:tul'),
    Scenario('insert_empty', insert_leaflist, 'A: <=2 lu, values may be '
             'empty', hi=2, empty=True),
    Scenario('insert_empty_key', insert_list, 'A: <=2 ul, keys may be empty',
             hi=2, empty=True),
    Scenario('insert_text', insert_leaflist, 'A: <=1 lu, 1 or 2 characters '
             'including spaces and quotes', hi=1, dom=TEXT, lens=(1, 2)),
    Scenario('insert_text_key', insert_list, 'A: <=1 ul, 1 or 2 characters '
             'including spaces', hi=1, dom=KEY, lens=(1, 2)),
    Scenario('insert_twice', insert_twice, 'A: <=2 lu; edit: 2 lu entries',
             hi=2),
    Scenario('insert_twice_list', insert_twice, 'A: <=2 ul; edit: 2 ul '
             'entries', hi=2, lname='vx:ul', ops=(None, 'delete')),
    Scenario('insert_twice3', insert_twice, 'A: <=3 lu; edit: 2 lu entries',
             'thorough', hi=3),
    sc('merge_leafs', shapes.leafs, 'A, B: top{a, b, in{x}}', fn=merge),
    sc('merge_leaflist', shapes.leaflist_leaf, 'A, B: a, ls, lu', fn=merge),
    sc('merge_slist', shapes.slist1, 'A: <=1 sl{v}; B: <=2 sl', fn=merge),
    sc('merge_ulist', lambda g, r: shapes.ulist(g, r, 2), 'A, B: <=2 ul',
       fn=merge),
    sc('merge_key2', shapes.key2, 'A: <=1 s2, B: <=2 s2, keys of 1 or 3 '
       'characters including spaces', fn=merge, dom=WIDE, lens=(1, 3)),
    sc('merge_choice', shapes.choice1, 'A, B: one case', fn=merge),
    sc('merge_nested', shapes.nested, 'A, B: <=1 nl{<=2 ul}', fn=merge),
    sc('merge_presence', shapes.presence, 'A, B: a, pr{x}', fn=merge),
    sc('merge_names', shapes.names, 'A, B: rn{v, w, rn{v, w}}', fn=merge),
    sc('merge_id', shapes.id_leaf, 'A, B: identityref', fn=merge),
    sc('merge_idkey', lambda g, r: shapes.id_key(g, r, hi=1),
       'A, B: <=1 idk', fn=merge),
]
