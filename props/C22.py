"""Configs and deltas of different devices, operands of other types."""
from lxml import etree
from symex.runner import Scenario
from . import dev, lib
from .common import CONFIG_MODULES, LIBXML, CHARS, show

MODULES = CONFIG_MODULES + ['ncdiff.model']
ASSUMPTIONS = [
    'Two modules with a container, a list and a leaf each, compiled by the '
    "repository's own ModelCompiler for either device; the second device "
    'differs from the first one in one respect per module.', CHARS, LIBXML]
KINDS = ['same', 'node', 'attribute', 'prefix', 'url', 'not loaded',
         'not scanned', 'not announced']
TEXT = ('module %(n)s { namespace "urn:%(u)s"; prefix %(p)s; '
        'revision 2024-01-01; container c%(n)s { leaf a { type string; } '
        'list l { key k; leaf k { type string; } leaf b { type %(t)s; } } '
        '%(more)s } }')
cache = {}
# what a namespace and a prefix are on a device where they differ
OTHER = {'url': {'p': 'P', 'q': 'qx'}, 'prefix': {'p': 'px', 'q': 'Q'}}


def device(kinds):
    """a device whose modules p and q differ as kinds says; each call with
    another number gives another device"""
    if kinds in cache:
        return cache[kinds]
    from ncdiff.manager import ModelDevice
    from ncclient.devices.default import DefaultDeviceHandler
    import shutil
    ks = dict(zip('pq', kinds[:2]))
    files = {}
    for n, k in ks.items():
        if k == 'not scanned':
            continue
        files[n + '.yang'] = TEXT % dict(
            n=n, u=OTHER['url'][n] if k == 'url' else n,
            p=OTHER['prefix'][n] if k == 'prefix' else n,
            t='int8' if k == 'attribute' else 'string',
            more='leaf z { type string; }' if k == 'node' else '')
    folder = dev.scratch(files)
    try:
        d = ModelDevice(dev.Session(dev.caps(
            [n for n in ks if ks[n] != 'not announced'])),
            DefaultDeviceHandler())
        d.scan_models(folder=folder, download='ignore')
        for n, k in ks.items():
            if not k.startswith('not'):
                d.load_model(n)
        d.namespaces
    finally:
        shutil.rmtree(folder, ignore_errors=True)
    cache[kinds] = d
    return d


def setup():
    return device(('same', 'same', 0))


def content(ctx, side, models, kinds):
    """(module, leaf a or None, entry k or None)"""
    out = []
    for n in models:
        if kinds[n].startswith('not'):
            continue
        how = ctx.pick('%s.%s' % (side, n), [None, 'leaf', 'entry']
                       if n == 'p' else [None, 'leaf'])
        if how is not None:
            out.append((n, how, ctx.str('%s.%s value' % (side, n))))
    return out


def config(d, cont, kinds=None):
    from ncdiff.config import Config
    r = etree.Element('{%s}config' % lib.NC)
    for n, how, v in cont:
        u = '{urn:%s}' % (OTHER['url'][n] if kinds and kinds[n] == 'url'
                          else n)
        c = etree.SubElement(r, u + 'c' + n)
        if how == 'leaf':
            etree.SubElement(c, u + 'a').text = v
        else:
            e = etree.SubElement(c, u + 'l')
            etree.SubElement(e, u + 'k').text = v
            etree.SubElement(e, u + 'b').text = '1'
    return Config(d, r)


def delta(src, dst):
    from ncdiff.config import ConfigDelta
    return ConfigDelta(config_src=src, config_dst=dst)


def op_add(A, B, C):
    return A + B


def op_sub(A, B, C):
    return (A - B).nc


def op_delta(A, B, C):
    return delta(A, B).nc


def op_add_delta(A, B, C):
    return A + delta(B, C)


def op_sub_delta(A, B, C):
    return A - delta(C, B)


def op_delta_add(A, B, C):
    return delta(B, C) + A


OPS = [op_add, op_sub, op_delta, op_add_delta, op_sub_delta, op_delta_add]


def result(f, *a):
    """what f gives, as text"""
    from ncdiff.config import Config
    try:
        r = f(*a)
    except Exception as e:
        return e
    if isinstance(r, Config):
        r = r.ele
    return etree.tostring(r, method='c14n') if etree.iselement(r) else r


def devices(ctx, env, op, same=False):
    from ncdiff.errors import ModelMissing, ModelIncompatible
    op = OPS[op]
    if same:
        kinds = dict(p='same', q='same')
        d2 = env
    else:
        kinds = {n: ctx.pick('%s is' % n, KINDS) for n in 'pq'}
        d2 = device((kinds['p'], kinds['q'], 1))
    names = 'pq'
    ca = content(ctx, 'A', names, dict(p='same', q='same'))
    cb = content(ctx, 'B', names, kinds)
    # a delta has two sides; the other one is empty or B
    cc = cb if 'delta' in op.__name__ and op is not op_delta and \
        ctx.bool('from itself') else []
    A = config(env, ca)
    B, C = config(d2, cb, kinds), config(d2, cc, kinds)
    used = sorted({n for n, h, v in ca + cb})
    missing = [n for n in used if kinds[n].startswith('not')]
    differ = [n for n in used if kinds[n] in ('node', 'attribute', 'prefix',
                                              'url')]
    got = result(op, A, B, C)
    show(ctx, device=kinds, A=A, B=B, got=got)
    if missing or differ:
        want = ([ModelMissing] if missing else []) + \
            ([ModelIncompatible] if differ else [])
        ctx.check(isinstance(got, tuple(want)),
                  'models that differ are not refused')
    else:
        B1, C1 = config(env, cb), config(env, cc)
        want = result(op, config(env, ca), B1, C1)
        if isinstance(want, Exception):
            # an operation that is not possible, on any device
            ctx.check(type(got) is type(want), 'another error')
        else:
            ctx.check(not isinstance(got, Exception),
                      'refused although all models are the same')
            ctx.check(got == want, 'the device matters for the result')


ODD = [None, 1, 'x', b'x', [], {}, object(), ValueError, 1.5, ()]


def types(ctx, env):
    """operands of other types: TypeError, operands unchanged"""
    import operator
    A = config(env, content(ctx, 'A', 'pq', dict(p='same', q='same')))
    D = delta(A, config(env, []))
    left = ctx.pick('left', ['Config', 'ConfigDelta'])
    x = A if left == 'Config' else D
    y = ctx.pick('right', ODD + ['C', 'D', 'E'])
    y = A if y == 'C' else D if y == 'D' else A.ele if y == 'E' else y
    if ctx.bool('swap'):
        x, y = y, x
    f = getattr(operator, ctx.pick('operator', [
        'add', 'sub', 'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'mul', 'and_']))
    from ncdiff.config import Config, ConfigDelta
    kinds = (Config, ConfigDelta)

    def kind(o):
        return 'C' if isinstance(o, Config) else 'D' if isinstance(
            o, ConfigDelta) else 'E' if etree.iselement(o) else '?'
    n, pair = f.__name__, kind(x) + kind(y)
    fine = n == 'add' and pair in ('CC', 'CD', 'DC', 'CE') or \
        n == 'sub' and pair in ('CC', 'CD') or \
        n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge') and pair == 'CC'
    try:
        r, e = f(x, y), None
    except Exception as ex:
        r, e = None, ex
    show(ctx, left=pair[0], right=pair[1], operator=n, result=r, error=e)
    if fine:
        ctx.check(not isinstance(e, TypeError), 'TypeError')
        ctx.check(e is not None or r is not None, 'no result')
    else:
        ctx.check(isinstance(e, TypeError), 'no TypeError')


def arguments(ctx, env):
    """arguments of Config and ConfigDelta that are of no use"""
    from ncdiff.config import Config, ConfigDelta
    A = config(env, [('p', 'leaf', 'x')])
    name = ctx.pick('argument', [
        'config', 'config_src', 'config_dst', 'delta', 'preferred_create',
        'preferred_replace', 'preferred_delete', 'random_depth'])
    good = {'config': [None], 'config_dst': [None], 'delta': [None],
            'preferred_create': ['merge', 'create', 'replace'],
            'preferred_replace': ['merge', 'replace'],
            'preferred_delete': ['delete', 'remove'],
            'random_depth': [None, 0, 1, 2, True], 'config_src': []}[name]
    v = ctx.pick('value', [None, 0, 1, 2, -1, True, 1.5, [], {}, object(),
                           'merge', 'create', 'replace', 'delete', 'remove',
                           '', 'none', b'merge'])
    if name in ('config', 'delta') and isinstance(v, str):
        return
    ok = any(type(v) is type(g) and v == g for g in good)
    try:
        if name == 'config':
            Config(env, v)
        elif name == 'config_src':
            ConfigDelta(v)
        else:
            ConfigDelta(A, **{name: v})
        e = None
    except Exception as ex:
        e = ex
    show(ctx, argument=name, value=v, error=e)
    if ok:
        ctx.check(e is None, 'a documented value is refused')
    else:
        ctx.check(isinstance(e, (TypeError, ValueError)),
                  'a useless value is accepted')


SCENARIOS = [Scenario('devices %s' % f.__name__[3:], devices,
                      '2 modules, 8 kinds of difference, any content',
                      op=i) for i, f in enumerate(OPS)]
SCENARIOS += [Scenario('same %s' % f.__name__[3:], devices, 'one device',
                       op=i, same=True) for i, f in enumerate(OPS)]
SCENARIOS += [
    Scenario('types', types, '13 operands, 10 operators, both sides'),
    Scenario('arguments', arguments, '8 arguments, 18 values'),
]
