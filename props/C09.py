"""extract_config: the config part of a reply, no more and no less."""
from lxml import etree
from symex.runner import Scenario
from symex.symstr import raw
from . import lib, shapes
from .common import (CONFIG_MODULES as MODULES, ASSUME, setup, gen, config,
                     show)
from .C07 import exact, drop_status

ASSUMPTIONS = ASSUME + [
    'Replies are RPCReply objects whose parsed tree is supplied by the '
    'harness (no session).']


def reply(tree):
    from ncclient.operations.rpc import RPCReply
    el = lib.to_etree(tree)
    outer = etree.Element('{%s}rpc-reply' % lib.NC, nsmap={None: lib.NC})
    d = etree.SubElement(outer, '{%s}data' % lib.NC)
    for c in list(el):
        d.append(c)
    r = RPCReply('<rpc-reply/>')
    r._root = outer
    r._parsed = True
    return r


def writable(n):
    """the config true part"""
    out = lib.N(n.s, n.val)
    out.kids = [writable(k) for k in n.kids if k.s.config]
    return out


def extract(ctx, env, shape):
    t = gen(ctx, shape, 'A')
    dep = ctx.bool('remove_deprecated')
    w = writable(t)
    want = lib.normalise(drop_status(lib.normalise(w), dep))
    r = reply(t)
    before = etree.tostring(r._root, encoding='unicode')
    got = env.extract_config(r, remove_deprecated=dep)
    show(ctx, reply=before, got=got)
    ctx.check(lib.val_eq(raw(before), raw(etree.tostring(
        r._root, encoding='unicode'))), 'the reply is modified')
    g = lib.from_etree(got.ele)
    ctx.check(exact(g, want), 'not the config part of the reply')
    conf = env.extract_config(reply(w), remove_deprecated=dep)
    ctx.check((got == conf) is True and (conf == got) is True,
              'config of <get> and of <get-config> differ')
    ctx.check(not (got - conf) and not (conf - got),
              'config of <get> and of <get-config> have a delta')
    empty = not want.kids
    ctx.check(bool(got) == (not empty), 'truth value of the config')


def flat(g, r):
    if g.b('has top'):
        t = r.add('vx:top')
        g.leaf(t, 'vx:a')
        g.leaf(t, 'vx:ro')
        if g.b('has st'):
            g.leaf(t.add('vx:st'), 'vx:s')
        g.leaf(t, 'vx:b')


def presence(g, r):
    t = r.add('vx:top')
    if g.b('has pr'):
        p = t.add('vx:pr')
        g.leaf(p, 'vx:ps')
        g.leaf(p, 'vx:x')
    if g.b('has in'):
        g.leaf(t.add('vx:in'), 'vx:x')


def rlist(g, r):
    t = r.add('vx:top')

    def body(g, e, p):
        g.leaf(e, 'vx:r', p)
        if g.b(p + 'has stat'):
            g.leaf(e.add('vx:stat'), 'vx:n', p)
        if '[0]' in p:
            g.leaf(e, 'vx:v', p)
    g.list(t, 'vx:rl', 2, body)


def roots(g, r):
    if g.b('has state-root'):
        g.leaf(r.add('vx:state-root'), 'vx:n')
    t = r.add('vx:top')
    g.leaf(t, 'vx:ro')
    g.leaf(t, 'vx:dep')
    g.leaf(t, 'vx:old')
    g.leaf(r, 'vx:tl')
    g.leaf(r.add('vy:ytop'), 'vy:p')


SCENARIOS = [
    Scenario('flat', extract, 'top{a, ro, st{s}, b(default)}', shape=flat),
    Scenario('presence', extract, 'top{pr{ps, x}, in{x}}', shape=presence),
    Scenario('rlist', extract, '<=2 rl{v, r, stat{n}}', shape=rlist),
    Scenario('roots', extract, 'state-root{n}, top{ro, dep, old}, tl, ytop',
             shape=roots),
    Scenario('plain', extract, 'two modules, all config',
             shape=shapes.modules),
    Scenario('clash', extract, 'lu, b, both modules', shape=shapes.clash),
    Scenario('clash_key', extract, 'sl{vy:k}', shape=shapes.clash_key),
    Scenario('names', extract, 'rn{v, w, rn{v, w}}', shape=shapes.names),
    Scenario('lists', extract, '<=2 nl{...}', shape=shapes.nested2),
]
