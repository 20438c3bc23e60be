"""Notations of tags: conversion never changes which node is meant."""
from lxml import etree
from symex import ctx as C
from symex.runner import Scenario
from symex.symstr import raw, SymStr
from symex.engine import s_and, s_or, s_not
from . import dev, lib
from .common import LIBXML, show

MODULES = ['ncdiff.manager', 'ncdiff.composer']
ASSUMPTIONS = [
    'The modules of the device (name, prefix, URL) are symbolic: names and '
    'URLs are unique, prefixes need not be.  They reach the device as the '
    'dependencies of a stand-in compiler.', LIBXML]
NC = lib.NC


class Stub(object):
    pass


def setup():
    import ncdiff.manager
    return None


def device(mods):
    from ncdiff.manager import ModelDevice
    from ncclient.devices.default import DefaultDeviceHandler
    d = ModelDevice(dev.Session(dev.BASE_CAPS), DefaultDeviceHandler())
    deps = etree.Element('modules')
    for n, p, u in mods:
        m = etree.SubElement(deps, 'module', id=raw(n), type='module',
                             prefix=raw(p))
        etree.SubElement(m, 'namespace').text = raw(u)
    # submodules have no prefix of their own
    etree.SubElement(deps, 'module', id='sub', type='submodule')
    d.compiler = Stub()
    d.compiler.context = Stub()
    d.compiler.context.dependencies = deps
    return d


def modules(ctx, n, plen=1, unique=False):
    out = []
    for i in range(n):
        m = (SymStr('m' + raw(ctx.str('name%d' % i, 1, C.NAME))),
             ctx.str('prefix%d' % i, plen, C.LOWER),
             SymStr('u:' + raw(ctx.str('url%d' % i, 1, C.NAME))))
        for x in out:
            ctx.assume(s_not(lib.val_eq(x[0], m[0])))
            ctx.assume(s_not(lib.val_eq(x[2], m[2])))
            if unique:
                ctx.assume(s_not(lib.val_eq(x[1], m[1])))
        out.append(m)
    return out


SPECIAL = {'nc': NC, 'yang': lib.YANG, 'xml': None}


def notations():
    from ncdiff import Tag
    return [('YTOOL', Tag.YTOOL), ('XPATH', Tag.XPATH),
            ('LXML_XPATH', Tag.LXML_XPATH), ('LXML_ETREE', Tag.LXML_ETREE),
            ('JSON_NAME', Tag.JSON_NAME), ('JSON_PREFIX', Tag.JSON_PREFIX)]


# what a notation is made of: which part of (name, prefix, url), whether the
# namespace is always written, format
KIND = {'YTOOL': (1, False, '%s:%s'), 'XPATH': (1, False, '%s:%s'),
        'LXML_XPATH': (1, True, '%s:%s'), 'LXML_ETREE': (2, True, '{%s}%s'),
        'JSON_NAME': (0, False, '%s:%s'), 'JSON_PREFIX': (1, False, '%s:%s')}


def amb(mods, i, part):
    """does another module have the same part?"""
    return s_or([lib.val_eq(m[part], mods[i][part])
                 for j, m in enumerate(mods) if j != i])


def convert(ctx, env, plen=1):
    """one conversion against the definition of the notations"""
    from ncdiff.errors import ModelError
    mods = modules(ctx, 2, plen)
    d = device(mods)
    src, st = ctx.pick('src', notations())
    dst, dt = ctx.pick('dst', notations())
    sp, sfull, sfmt = KIND[src]
    dp, dfull, dfmt = KIND[dst]
    local = ctx.str('local', 2, C.NAME)
    own = ctx.pick('own', [0, 1, None, 'unknown'])
    default = ctx.pick('default', [0, 1, None])
    dns = '' if default is None else mods[default][sp]
    if own == 'unknown':
        ns = SymStr('zz' + raw(ctx.str('other', 1, C.NAME)))
        if default is None and ctx.bool('inherited'):
            dns = ns
    elif own is None:
        ns = None
    else:
        ns = mods[own][sp]
    tag = local if ns is None else SymStr(sfmt % (raw(ns), raw(local)))
    show(ctx, mods=mods, src=src, dst=dst, default=dns, tag=tag)
    try:
        got = d.convert_tag(dns, tag, src=st, dst=dt)
    except (ValueError, ModelError) as e:
        got = e
    eff = own if own is not None else default
    if own == 'unknown' or (own is None and sfull):
        ctx.check(isinstance(got, ValueError), 'no error for a bad tag')
        return
    if eff is None:
        if dfull:
            ctx.check(isinstance(got, ValueError), 'no error without '
                      'namespace')
        else:
            ctx.check(not isinstance(got, Exception) and s_and([
                lib.val_eq(got[0], ''), lib.val_eq(got[1], local)]),
                'wrong tag without namespace')
        return
    same = False if default is None else \
        lib.val_eq(mods[default][sp], mods[eff][sp])
    if not dfull and same:
        # nothing to look up: the tag inherits its namespace
        ctx.check(not isinstance(got, Exception) and s_and([
            lib.val_eq(got[0], mods[eff][sp]), lib.val_eq(got[1], local)]),
            'inherited namespace is not omitted')
        return
    if amb(mods, eff, sp):
        ctx.check(isinstance(got, Exception), 'ambiguous namespace converted')
        return
    ctx.check(not isinstance(got, Exception), 'tag cannot be converted')
    if isinstance(got, Exception):
        return
    want = dfmt % (raw(mods[eff][dp]), raw(local))
    ctx.check(lib.val_eq(got[0], mods[eff][sp]), 'wrong namespace')
    ctx.check(lib.val_eq(got[1], want), 'wrong tag')


def roundtrip(ctx, env, plen=1):
    """there and back, with the namespace of the parent carried along"""
    mods = modules(ctx, 2, plen, unique=True)
    d = device(mods)
    src, st = ctx.pick('src', notations())
    dst, dt = ctx.pick('dst', notations())
    sp, sfull, sfmt = KIND[src]
    dp, dfull, dfmt = KIND[dst]
    local = ctx.str('local', 2, C.NAME)
    own, parent = ctx.pick('own', [0, 1]), ctx.pick('parent', [0, 1, None])
    pdef = '' if parent is None else mods[parent][sp]
    omit = not sfull and own == parent
    tag = local if omit else SymStr(sfmt % (raw(mods[own][sp]), raw(local)))
    show(ctx, mods=mods, src=src, dst=dst, tag=tag, default=pdef)
    ns, there = d.convert_tag(pdef, tag, src=st, dst=dt)
    ctx.check(lib.val_eq(ns, mods[own][sp]), 'wrong namespace')
    back_def = '' if parent is None else mods[parent][dp]
    ns2, back = d.convert_tag(back_def, there, src=dt, dst=st)
    ctx.check(lib.val_eq(back, tag), 'tag changes on the way there and back')
    ctx.check(lib.val_eq(ns2, mods[own][dp]), 'wrong namespace on the way '
              'back')


def special(ctx, env):
    """NETCONF's own namespace is known without any model"""
    from ncdiff import Tag
    mods = modules(ctx, 1, 1)
    d = device(mods)
    local = ctx.str('local', 2, C.NAME)
    got = d.convert_tag('', SymStr('{%s}%s' % (NC, raw(local))),
                        src=Tag.LXML_ETREE, dst=Tag.LXML_XPATH)
    ctx.check(lib.val_eq(got[1], 'nc:' + raw(local)), 'nc prefix')
    got = d.convert_tag('', SymStr('nc:%s' % raw(local)),
                        src=Tag.LXML_XPATH, dst=Tag.LXML_ETREE)
    ctx.check(lib.val_eq(got[1], '{%s}%s' % (NC, raw(local))), 'nc url')


def convert_ns(ctx, env, plen=1):
    mods = modules(ctx, 3, plen)
    d = device(mods)
    s, t = ctx.choice('src', 3), ctx.choice('dst', 3)
    i = ctx.pick('which', [0, 1, 2, None])
    ns = SymStr('u:%sq' % raw(ctx.str('other', 1, C.NAME))) if i is None \
        else mods[i][s]
    show(ctx, mods=mods, src=s, dst=t, ns=ns)
    try:
        got = d.convert_ns(ns, src=s, dst=t)
    except ValueError:
        ctx.check(True if i is None else amb(mods, i, s),
                  'known namespace cannot be converted')
        return
    ctx.check(i is not None, 'unknown namespace converted')
    if i is not None:
        ctx.check(s_not(amb(mods, i, s)), 'ambiguous namespace converted')
        ctx.check(lib.val_eq(got, mods[i][t]), 'wrong namespace')


def listing(ctx, env):
    """device.namespaces has every module, once"""
    mods = modules(ctx, 3, 1)
    d = device(mods)
    got = d.namespaces
    ctx.check(len(got) == 3 and s_and([
        lib.val_eq(a, b) for m, g in zip(mods, got) for a, b in zip(m, g)]),
        'wrong namespaces')


def answer(d, tree):
    """device.get() with a session that answers with tree"""
    from ncclient.manager import Manager
    from ncclient.operations.rpc import RPCReply
    r = RPCReply('<rpc-reply/>')
    r._root = tree
    r._parsed = True
    real = Manager.execute
    Manager.execute = lambda self, cls, *a, **k: r
    try:
        return d.get()
    finally:
        Manager.execute = real


def prefixes(ctx, env, n, nurl):
    """Config.ns / reply.ns: a prefix for every namespace in use, known ones
    under the prefix of their model"""
    mods = modules(ctx, 2, 2, unique=True)
    d = device(mods)
    urls = ['u:1', 'u:2', NC, 'u:3'][:nurl]
    e = etree.Element('{%s}rpc-reply' % NC)
    cur = etree.SubElement(e, '{%s}data' % NC)
    used = [NC]
    for i in range(n):
        u = ctx.pick('ns%d' % i, urls)
        if u not in used:
            used.append(u)
        p = ctx.pick('pre%d' % i, [None, 'xx', 'yy'])
        below = etree.SubElement(cur, '{%s}t' % u, nsmap={p: u})
        if ctx.bool('below%d' % i):
            cur = below
    for m in mods:
        # made-up prefixes
        ctx.assume(s_not(lib.val_eq(m[1], 'nc')))
    got = answer(d, e).ns
    show(ctx, xml=etree.tostring(e, encoding='unicode'), ns=got)
    ctx.check(len(got) == len(used), 'wrong number of namespaces')
    for u in used:
        ps = [p for p, v in got.items() if raw(v) == u]
        ctx.check(len(ps) == 1, 'not one prefix for a namespace')
        for m in mods:
            ctx.check(s_or([s_not(lib.val_eq(m[2], u)),
                            lib.val_eq(ps[0], m[1])]), 'wrong prefix')
        if u == NC:
            ctx.check(lib.val_eq(ps[0], 'nc'), 'wrong prefix of NETCONF')


SCENARIOS = [
    Scenario('convert', convert, '2 modules, prefixes of 1 character that may '
             'be equal, all 36 pairs of notations'),
    Scenario('convert 2', convert, '2 modules, prefixes of 2 characters',
             plen=2, tier='thorough'),
    Scenario('roundtrip', roundtrip, '2 modules, all 36 pairs of notations'),
    Scenario('roundtrip 2', roundtrip, '2 modules, prefixes of 2 characters',
             plen=2, tier='thorough'),
    Scenario('special', special, 'any local name of 2 characters'),
    Scenario('convert_ns', convert_ns, '3 modules, 9 pairs of formats'),
    Scenario('listing', listing, '3 modules and a submodule'),
    Scenario('prefixes', prefixes, '2 nodes over 3 namespaces, 2 modules with '
             'symbolic URLs and prefixes', n=2, nurl=3),
    Scenario('prefixes 3', prefixes, '3 nodes over 4 namespaces', n=3, nurl=4,
             tier='thorough'),
]
