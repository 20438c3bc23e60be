"""What the device is asked: filters, datastores and configs on the wire."""
from lxml import etree
from symex import ctx as C
from symex.runner import Scenario
from symex.symstr import raw, SymStr
from . import dev, lib, shapes, wire
from .common import (CONFIG_MODULES as MODULES, ASSUME, gen, show)

ASSUMPTIONS = ASSUME + [
    'ncclient runs natively; the session below it is a stand-in that records '
    'requests.']

HEAD = ('module %s { namespace "urn:%s"; prefix %s; '
        'revision 2024-01-01 { description "d"; } ')
W = {
    'w': 'container c1 { leaf a { type string; } } '
          'list l1 { key k; leaf k { type string; } } '
          'container s1 { config false; leaf a { type string; } } '
          'rpc r1 { input { leaf a { type string; } } } '
          'notification n1 { leaf a { type string; } }',
    'w2': 'container s2 { config false; leaf a { type string; } }',
    'w3': 'rpc r3;',
    'w4': 'leaf f4 { type string; } leaf-list g4 { type string; } '
          'choice h4 { leaf i4 { type string; } case j4 { leaf k4 '
          '{ type string; } } }',
}
# roots by access, as the YANG above says
RW = {'w': ['c1', 'l1'], 'w2': [], 'w3': [], 'w4': ['f4', 'g4', 'i4', 'k4']}
RO = {'w': ['s1'], 'w2': ['s2'], 'w3': [], 'w4': []}


def setup():
    files = {m + '.yang': HEAD % (m, m, m) + t + ' }' for m, t in W.items()}
    d = dev.make(names=tuple(sorted(W)), files=files)
    return d, dev.make()


def on_wire(env, caps, loaded=None):
    """a fresh device with the models of env"""
    d, s = wire.device(caps)
    d.compiler = env.compiler
    for m in (loaded if loaded is not None else env.models):
        d.models[m] = env.models[m]
    return d, s


def attempt(f, *a, **k):
    try:
        return f(*a, **k), None
    except Exception as e:
        return None, e


def retrieve(ctx, env, op):
    """get and get_config with models"""
    from ncdiff.errors import ModelMissing
    env = env[0]
    loaded = ctx.subset('loaded', sorted(W))
    d, s = on_wire(env, wire.BASE, loaded)
    s.answer = lambda o: '<data/>'
    how = ctx.pick('how', ['str', 'list', 'none'])
    kw = {}
    if how == 'str':
        models = [ctx.pick('model', sorted(W))]
        kw['models'] = models[0]
    elif how == 'list':
        models = ctx.subset('models', sorted(W))
        kw['models'] = list(models)
    else:
        models = None
    if op == 'get_config':
        src = ctx.pick('source', [None, 'running', 'startup'])
        args = ()
        if src is not None:
            if ctx.bool('positional'):
                args = (src,)
            else:
                kw['source'] = src
    else:
        src, args = None, ()
    own = None
    if models is None and ctx.bool('own filter'):
        own = etree.Element(wire.q('filter'), type='subtree')
        etree.SubElement(own, '{urn:w}c1')
        kw['filter'] = own
    by = ctx.pick('by', ['method', 'name'])
    f = getattr(d, op) if by == 'method' else \
        (lambda *a, **k: d.execute(op, *a, **k))
    r, e = attempt(f, *args, **kw)
    show(ctx, op=op, args=args, kw=kw, loaded=loaded, error=repr(e),
         sent=[etree.tostring(x) for x in s.sent])
    if models is not None:
        if not set(models) <= set(loaded):
            ctx.check(isinstance(e, ModelMissing) and not s.sent,
                      'a model that is not loaded is accepted')
            return
        want = {'{urn:%s}%s' % (m, n) for m in models for n in RW[m]}
        if op == 'get':
            want |= {'{urn:%s}%s' % (m, n) for m in models for n in RO[m]}
        if not want:
            ctx.check(isinstance(e, ValueError) and not s.sent,
                      'a request without any data is sent')
            return
    ctx.check(e is None and len(s.sent) == 1, 'no request')
    if len(s.sent) != 1:
        return
    o = s.sent[0]
    ctx.check(o.tag == wire.q(op.replace('_', '-')), 'wrong operation')
    if op == 'get_config':
        got = [x.tag for x in o.find(wire.q('source'))]
        ctx.check(got == [wire.q(src or 'running')], 'wrong datastore')
    flt = o.findall(wire.q('filter'))
    if models is None:
        ctx.check(len(flt) == (own is not None), 'filter added or lost')
        if own is not None and flt:
            ctx.check([x.tag for x in flt[0]] == ['{urn:w}c1'],
                      'filter changed')
    else:
        ctx.check(len(flt) == 1 and flt[0].get('type') == 'subtree',
                  'no subtree filter')
        if len(flt) == 1:
            got = [x.tag for x in flt[0]]
            # a notification is not data: asking for it is no use, no harm
            got = [x for x in got if x != '{urn:w}n1']
            ctx.check(sorted(got) == sorted(want), 'filter does not select '
                      'exactly the data of the models')
            ctx.check(all(len(x) == 0 and not x.text for x in flt[0]),
                      'filter selects less than a whole root')
    ctx.check(r.ok, 'reply is lost')


def plain(e):
    """structure without layout and prefixes"""
    out = lib.from_etree(e, edit=True)
    return out


def edit(ctx, env, shape):
    """edit_config with a Config, a ConfigDelta or an element"""
    from ncdiff.config import Config, ConfigDelta
    env = env[1]
    cand, run = ctx.bool('candidate'), ctx.bool('writable-running')
    ctx.assume(cand or run)
    caps = wire.BASE + ([wire.CANDIDATE] if cand else []) + \
        ([wire.RUNNING] if run else [])
    d, s = on_wire(env, caps)
    t = gen(ctx, shape, 'A')
    cfg = Config(d, lib.to_etree(t))
    kind = ctx.pick('kind', ['config', 'delta', 'delta.nc', 'string'])
    if kind == 'config':
        arg, want = cfg, lib.from_etree(cfg.ele)
    elif kind == 'string':
        arg, want = etree.tostring(lib.to_etree(t), encoding='unicode'), t
    else:
        delta = ConfigDelta(Config(d), cfg)
        want = lib.from_etree(delta.nc, edit=True)
        arg = delta if kind == 'delta' else delta.nc
    target = ctx.pick('target', [None] + (['candidate'] if cand else []) +
                      (['running'] if run else []))
    args, kw = (), {}
    if ctx.bool('config keyword'):
        kw['config'] = arg
    else:
        args = (arg,)
    if target is not None:
        if args and ctx.bool('target positional'):
            args += ('xml', target)
        else:
            kw['target'] = target
    elif args and ctx.bool('format positional'):
        args += ('xml',)
    if ctx.bool('default_operation'):
        kw['default_operation'] = 'none'
    r, e = attempt(d.edit_config, *args, **kw)
    show(ctx, config=cfg, args=args, kw=kw, caps=caps, error=repr(e),
         sent=[etree.tostring(x) for x in s.sent])
    ctx.check(e is None and len(s.sent) == 1, 'no request')
    if len(s.sent) != 1:
        return
    o = s.sent[0]
    ctx.check(o.tag == wire.q('edit-config'), 'wrong operation')
    tg = [x.tag for x in o.find(wire.q('target'))]
    ctx.check(tg == [wire.q(target or ('candidate' if cand else 'running'))],
              'wrong datastore')
    ctx.check(('default_operation' in kw) ==
              (o.find(wire.q('default-operation')) is not None),
              'default-operation')
    ctx.check(lib.tree_eq(lib.from_etree(o.find(wire.q('config')), edit=True),
                          want) and
              ops(o.find(wire.q('config'))) == ops_of(want),
              'another config is sent')
    # the objects stay usable
    again = Config(d, lib.to_etree(t))
    ctx.check((cfg == again) is True and not (cfg - again),
              'sending a config changes it')
    ctx.check(cfg.ele.getparent() is None, 'the config is moved away')
    r2, e2 = attempt(d.edit_config, *args, **kw) if kind != 'delta.nc' else \
        (None, None)
    ctx.check(e2 is None, 'a config cannot be sent twice')


def ops(e):
    return [x.get('{%s}operation' % lib.NC) for x in e.iter()]


def ops_of(n):
    out = [n.op]
    for k in n.kids:
        out += ops_of(k)
    return out


def unknown(ctx, env):
    """operations that do not exist are refused, others reach ncclient"""
    d, s = on_wire(env[0], wire.BASE + [wire.CANDIDATE])
    op = ctx.pick('op', ['get', 'lock', 'unlock', 'commit', 'discard_changes',
                         'nonsense', ''])
    args = ('running',) if op in ('lock', 'unlock') else ()
    r, e = attempt(d.execute, op, *args)
    if op in ('nonsense', ''):
        ctx.check(isinstance(e, ValueError) and not s.sent,
                  'unknown operation')
    else:
        ctx.check(e is None and len(s.sent) == 1 and
                  s.sent[0].tag == wire.q(op.replace('_', '-')) and r.ok,
                  'wrong operation')


SCENARIOS = [
    Scenario('get', retrieve, 'any loaded subset of 4 models, any models',
             op='get'),
    Scenario('get_config', retrieve, 'any loaded subset of 4 models, any '
             'models, 3 ways to give the source', op='get_config'),
    Scenario('edit leafs', edit, 'top{a, b, in{x}}', shape=shapes.leafs),
    Scenario('edit list', edit, '<=1 ul', shape=lambda g, r:
             shapes.ulist(g, r, 1)),
    Scenario('operations', unknown, '7 names'),
]
