"""identityref and instance-identifier values denote names in namespaces:
the prefixes they are written with never matter."""
from symex import ctx as C
from symex.runner import Scenario
from symex.symstr import raw, SymStr
from symex.engine import s_and, s_or, s_not, s_iff
from . import lib, shapes
from .common import (CONFIG_MODULES as MODULES, ASSUME, setup, gen, config,
                     show, options)
from .C01 import roundtrip

ASSUMPTIONS = ASSUME + [
    'Prefixes used in values are declared on the node itself; members of '
    'unions are not covered.  Values of instance-identifiers follow RFC 7950 '
    'section 14 without white space; a string is written in the kind of '
    'quotes it does not contain.']

# paths: X, Y stand for prefixes of vx and vy, Q for a quoted string
FORMS = ['/X:top/X:a', '/X:top/Y:a', '/X:top/X:in/X:x',
         '/X:top/X:sl[X:k=Q]/X:v', '/X:top/X:sl[X:k=Q]/Y:v',
         '/X:top/X:s2[X:k2=Q][X:k1=Q]', '/X:top/X:ls[.=Q]',
         '/X:top/X:ls[1]', '/X:top/X:ls[2]', '/X:top/X:ls[12]',
         '/X:top/X:do.t', '/X:top/X:do.t/X:a',
         '/Y:ytop/Y:e[Y:k=Q]']
# I: no prefix, the name is in the module of its parent (RFC 7951, 6.11)
SHORT = ['/X:top/I:a', '/X:top/Y:a/I:b', '/X:top/X:a/Y:b',
         '/X:top/X:sl[I:k=Q]/I:v', '/X:top/X:sl[Y:k=Q]/I:v',
         '/X:top/I:sl[Y:k=Q]/X:v', '/X:top/Y:sl[X:k=Q]/I:v',
         '/X:top/Y:sl[I:k=Q][X:j=Q]/I:v', '/X:top/I:ls[.=Q]',
         '/X:top/Y:ls[1]/I:a', '/X:top/X:ls[1]/I:a']
SPELL = [('vx', 'vy'), ('p', 'vy'), ('vy', 'vx')]


def iid(ctx, side, form, n=1, dom=C.ANY):
    """(text, nsmap, denotation)"""
    x, y = ctx.pick(side + '.spelling', SPELL)
    vals, text, deno, up, skip, inside = [], '', '', '', False, False
    for c in form:
        if skip:
            skip = False
        elif c in 'XYI':
            m = {'X': '{vx}', 'Y': '{vy}', 'I': up}[c]
            if not inside:
                up = m
            deno += m
            if c != 'I':
                text += (x if c == 'X' else y) + ':'
            skip = True
        elif c == 'Q':
            q = ctx.pick('%s.quote%d' % (side, len(vals)), ['"', "'"])
            v = ctx.str('%s.value%d' % (side, len(vals)), n, dom)
            for ch in raw(v):
                ctx.assume(s_not(lib.val_eq(ch, q)))
            vals.append(v)
            text += q + raw(v) + q
        else:
            inside = c == '[' or inside and c != ']'
            text += c
            deno += c
    return text, {x: 'urn:vx', y: 'urn:vy'}, (deno, vals)


def same(a, b):
    return s_and([a[0] == b[0], len(a[1]) == len(b[1])] +
                 [lib.val_eq(x, y) for x, y in zip(a[1], b[1])])


def tree(text, ns, name='vx:iid'):
    t = lib.root()
    k = t.add('vx:top').add(name, SymStr(text))
    k.ns = ns
    return t


def xtree(text, ns, name):
    """references from vy to vx (a prefix of the namespace that is the
    default one of the leaf is lost when nodes are moved: known finding
    C01-prefix)"""
    t = lib.root()
    k = t.add('vy:ytop').add(name, SymStr(text))
    k.ns = {p: u for p, u in ns.items() if u == 'urn:vx'}
    return t


def compare(ctx, env, forms, n=1, leaf='vx:iid'):
    fa, fb = ctx.pick('formA', forms), ctx.pick('formB', forms)
    ta, na, da = iid(ctx, 'A', fa, n)
    tb, nb, db = iid(ctx, 'B', fb, n)
    A, B = config(env, tree(ta, na, leaf)), config(env, tree(tb, nb, leaf))
    show(ctx, A=A, B=B)
    eq = same(da, db)
    ctx.check(s_iff((A == B) is True, eq), 'A == B does not tell whether two '
              'instance-identifiers are the same')
    ctx.check(s_iff(not (B - A), eq), 'B - A is empty for different '
              'instance-identifiers, or not for the same')


def bring(ctx, env, forms, n=1, leaf='vy:iid'):
    """a delta brings the value of B to A, whatever A was written like"""
    from ncdiff.config import ConfigDelta
    fa, fb = ctx.pick('formA', forms), ctx.pick('formB', forms)
    ta, na, da = iid(ctx, 'A', fa, n)
    tb, nb, db = iid(ctx, 'B', fb, n)
    ra, rb = xtree(ta, na, leaf), xtree(tb, nb, leaf)
    A, B = config(env, ra), config(env, rb)
    d = ConfigDelta(config_src=A, config_dst=B)
    show(ctx, A=A, B=B, delta=d)
    show(ctx, result=A + d)
    want = lib.resolve(rb)
    ctx.check(lib.tree_eq(lib.from_etree((A + d).ele), want),
              'A + (B - A) differs from B')
    try:
        srv = lib.server_apply(lib.resolve(ra), lib.from_etree(d.nc,
                                                               edit=True))
    except lib.EditError as e:
        ctx.check(False, 'a NETCONF server rejects the delta: %s' % e)
        return
    ctx.check(lib.tree_eq(srv, want),
              'a NETCONF server ends up in a different config')


def dropped(ctx, env, forms, n=1):
    """a delta names the leaf-list entry that goes away by its value, also
    when the prefixes are declared once for all"""
    from ncdiff.config import ConfigDelta
    ta, na, da = iid(ctx, 'A', ctx.pick('formA', forms), n)
    t, u = lib.root(), lib.root()
    default = ctx.bool('default namespace')
    for r in (t, u):
        k = r.add('vy:ytop')
        k.ns = dict(na)
        if default:
            k.ns[None] = 'urn:vy'
        if r is t:
            k.add('vy:iidl', SymStr(ta))
        x = [p for p in na if na[p] == 'urn:vx'][0]
        k.add('vy:iidl', '/%s:top/%s:a' % (x, x))
    A, B = config(env, t), config(env, u)
    ctx.assume(s_not(same(da, ('/{vx}top/{vx}a', []))))
    d = ConfigDelta(config_src=A, config_dst=B)
    show(ctx, A=A, delta=d)
    try:
        srv = lib.server_apply(lib.resolve(t), lib.from_etree(d.nc,
                                                              edit=True))
    except lib.EditError as e:
        ctx.check(False, 'a NETCONF server rejects the delta: %s' % e)
        return
    ctx.check(lib.tree_eq(srv, lib.resolve(u)),
              'a NETCONF server ends up in a different config')


def relation(ctx, env, shape):
    """==, <= and empty deltas agree with the denotation of identityrefs"""
    ta, tb = gen(ctx, shape, 'A'), gen(ctx, shape, 'B')
    A, B = config(env, ta), config(env, tb)
    na, nb = lib.resolve(ta), lib.resolve(tb)
    show(ctx, A=A, B=B)
    ctx.check(s_iff((A == B) is True, lib.tree_eq(na, nb)),
              '== depends on prefixes')
    ctx.check(s_iff(not (A - B), lib.tree_eq(na, nb)),
              'a delta depends on prefixes')
    ctx.check(s_iff((A <= B) is True, lib.tree_le(na, nb)),
              '<= depends on prefixes')


def restated(ctx, env, shape):
    """a config and the same config with every value spelled differently"""
    ta = gen(ctx, shape, 'A')
    tb = ta.copy()

    def respell(n, p=''):
        for i, k in enumerate(n.kids):
            if k.s.type == 'identityref':
                m = lib._ident(k.val, dict({None: 'urn:vx'}, **(k.ns or {})),
                               'vx')
                k.val, ns = ctx.pick('B.as %s%d' % (p, i), shapes.IDS[m])
                k.ns = dict(ns) or None
            respell(k, '%s%d/' % (p, i))
    respell(tb)
    A, B = config(env, ta), config(env, tb)
    show(ctx, A=A, B=B)
    ctx.check((A == B) is True and (B == A) is True, '== depends on prefixes')
    ctx.check(not (A - B) and not (B - A), 'a delta depends on prefixes')
    C = A + B
    ctx.check(lib.tree_eq(lib.from_etree(C.ele), lib.resolve(ta)),
              'A + A differs from A')


def leafref_key(g, r):
    t = r.add('vx:top')
    seen = []
    for i in range(g.count('tidk', 2)):
        e = t.add('vx:tidk')
        m = g.ctx.pick('%s.id %d' % (g.side, i), shapes.IDVALS)
        for name, p in (('k', e), ('c', e.add('vx:c'))):
            k = p.add('vx:k')
            k.val, ns = g.ctx.pick('%s.%s as %d' % (g.side, name, i),
                                   shapes.IDS[m])
            k.ns = dict(ns) or None
        if m in seen:
            g.ctx.assume(False)
        seen.append(m)
    # the key comes first
    for e in t.kids:
        e.kids.sort(key=lambda k: k.s.name != 'vx:k')


def moved(ctx, env):
    """a value brought to a config that has other prefixes"""
    from ncdiff.config import ConfigDelta
    ta, tb = lib.root(), lib.root()
    for side, r in (('A', ta), ('B', tb)):
        t = r.add('vx:top')
        if side == 'B' or ctx.bool('has tid'):
            k = t.add('vx:tid')
            m = ctx.pick(side + '.id', [m for m in shapes.IDVALS
                                        if m[0] == 'urn:vy'])
            k.val, ns = ctx.pick(side + '.as', [
                s for s in shapes.IDS[m] if 'vx' not in s[1]])
            k.ns = dict(ns)
    A, B = config(env, ta), config(env, tb)
    d = ConfigDelta(config_src=A, config_dst=B)
    show(ctx, A=A, B=B, delta=d)
    ctx.check(lib.tree_eq(lib.from_etree((A + d).ele), lib.resolve(tb)),
              'A + (B - A) differs from B')


XFORMS = [f for f in FORMS if 'Y' not in f]
SCENARIOS = [
    Scenario('compare', compare, 'two instance-identifiers of 11 forms, 3 '
             'spellings, strings of 1 printable character, both kinds of '
             'quotes', forms=FORMS),
    Scenario('compare short', compare, 'names without prefix, 11 forms',
             forms=SHORT),
    Scenario('compare short and full', compare, 'names with and without '
             'prefix, 22 forms', forms=FORMS + SHORT, tier='thorough'),
    Scenario('compare keys', compare, 'keys with and without prefix',
             forms=['/X:top/X:sl[X:k=Q]/X:v', '/X:top/X:sl[I:k=Q]/I:v',
                    '/X:top/X:sl[Y:k=Q]/I:v', '/X:top/X:s2[I:k2=Q][Y:k1=Q]',
                    '/X:top/X:s2[X:k2=Q][Y:k1=Q]',
                    '/X:top/X:s2[X:k2=Q][I:k1=Q]']),
    Scenario('compare 2', compare, 'strings of 2 characters', n=2,
             forms=['/X:top/X:sl[X:k=Q]/X:v', '/X:top/X:ls[.=Q]']),
    Scenario('compare 3', compare, 'strings of 3 characters', n=3,
             forms=['/X:top/X:sl[X:k=Q]/X:v'], tier='thorough'),
    Scenario('bring', bring, 'an instance-identifier leaf replaced by '
             'another', forms=XFORMS),
    Scenario('bring 2', bring, 'strings of 2 characters', n=2,
             forms=['/X:top/X:sl[X:k=Q]/X:v']),
    Scenario('bring leaf-list', bring, 'one leaf-list entry replaced by '
             'another', forms=XFORMS, leaf='vy:iidl'),
    Scenario('bring leaf-list 2', bring, 'strings of 2 characters', n=2,
             forms=['/X:top/X:sl[X:k=Q]/X:v', '/X:top/X:ls[.=Q]'],
             leaf='vy:iidl'),
    Scenario('bring leaf-list 3', bring, 'strings of 3 characters', n=3,
             forms=['/X:top/X:ls[.=Q]'], leaf='vy:iidl', tier='thorough'),
    Scenario('dropped', dropped, 'one of two entries is deleted, 13 forms',
             forms=FORMS),
    Scenario('dropped 2', dropped, 'strings of 2 characters', n=2,
             forms=['/X:top/X:s2[X:k2=Q][X:k1=Q]', '/X:top/X:ls[.=Q]']),
    Scenario('leaf', relation, 'identityref leaf', shape=shapes.id_leaf1),
    Scenario('leaf-list', relation, '<=1 identityref leaf-list entry per '
             'side', shape=lambda g, r: shapes.id_leaflist(g, r, hi=1)),
    Scenario('restated leaf-list', restated, '<=2 identityref entries',
             shape=shapes.id_leaflist),
    Scenario('restated user leaf-list', restated, '<=2 identityref entries',
             shape=shapes.id_user_leaflist),
    Scenario('restated key', restated, '<=2 entries with an identityref key',
             shape=lambda g, r: shapes.id_key(g, r)),
    # types that become an identityref or instance-identifier by way of
    # typedefs and leafrefs
    Scenario('typedef leaf', relation, 'leaf, typedef of a typedef of an '
             'identityref', shape=lambda g, r: shapes.id_leaf1(g, r,
                                                               'vx:tid')),
    Scenario('typedef leaf-list', restated, '<=2 entries, typedef of an '
             'identityref', shape=lambda g, r: shapes.id_leaflist(
                 g, r, 'vx:tidl')),
    Scenario('leafref key', restated, '<=2 entries, the key is a leafref to '
             'a leaf of the entry, typedef of an identityref',
             shape=leafref_key),
    Scenario('moved typedef', moved, '<=1 identityref, typedef of a typedef '
             'of an identityref'),
    Scenario('compare typedef', compare, 'typedef of an instance-identifier',
             forms=FORMS[:4], leaf='vx:tiid'),
    Scenario('bring typedef', bring, 'typedef of another module',
             forms=XFORMS[:4], leaf='vy:tiid'),
    Scenario('bring leafref', bring, 'leafref to a typedef of another module',
             forms=XFORMS[:4], leaf='vy:tlid'),
]
