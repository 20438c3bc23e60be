"""Compiled models say what the YANG modules say."""
import itertools
import os
import shutil
from symex import ctx as C
from symex.runner import Scenario
from symex.symstr import raw
from . import dev, lib
from .yangen import Y, module, got, unordered, respell, PREFIXES
from .common import LIBXML, show

MODULES = ['ncdiff.model']
ASSUMPTIONS = [
    'pyang runs natively and is trusted; modules are written from symbolic '
    'descriptions and the expected trees follow RFC 7950.  The order in which '
    'sets of module names are iterated is symbolic.  ContextWorker threads '
    'run one after the other here (C21 varies their schedule).', LIBXML]


def setup():
    import ncdiff.model as m
    m.ContextWorker.start = m.ContextWorker.run
    return None


SPACED = C.Domain('printable ASCII and space without the specials of YANG',
                  32, 126, exclude='<>&"\'/[]=.:,{}\\')


class Names(set):
    """a set of module names that is iterated in an arbitrary order"""

    def __new__(cls, ctx, items=()):
        return set.__new__(cls)

    def __init__(self, ctx, items=()):
        set.__init__(self, items)
        self.ctx = ctx

    def __or__(self, other):
        return Names(self.ctx, set.__or__(self, other))

    union = __or__
    __ror__ = __or__

    def copy(self):
        return Names(self.ctx, self)

    def __iter__(self):
        x = sorted(set.__iter__(self))
        ps = list(itertools.permutations(x))
        return iter(self.ctx.pick('order of ' + ' '.join(x), ps))


class folder(object):
    def __init__(self, files):
        self.files = {n + '.yang': t for n, t in files.items()}

    def __enter__(self):
        self.d = dev.scratch(self.files)
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def compiler(ctx, d, shuffle=False):
    from ncdiff.model import ModelCompiler
    c = ModelCompiler(d)
    if shuffle:
        f = c.get_dependencies

        def dependencies(module):
            i, d = f(module)
            return Names(ctx, i), Names(ctx, d)
        c.get_dependencies = dependencies
    return c


def errors(c):
    return [e for e in c.pyang_errors if 'UNUSED' not in e[1]]


def same(ctx, m, want, ordered=True, mod='m', pre=None):
    have = [got(e) for e in m.tree]
    if not ordered:
        have, want = [sorted(unordered(x) for x in t) for t in (have, want)]
    show(ctx, got=have, want=want)
    ctx.check(len(have) == len(want), 'not the nodes of the module')
    ctx.check(have == want, 'a node is not what the module says')
    ctx.check(m.name == mod and m.prefix == (pre or mod) and
              m.url == 'urn:' + mod and m.tree.get('type') == 'module',
              'wrong name, prefix or URL')


def compile_one(ctx, nodes, files=None, ordered=True, shuffle=False,
                urls=None, spell=('names',), loose={}, **kw):
    urls = urls or {'m': 'urn:m', 'o': 'urn:o'}
    files = dict(files or {})
    files.setdefault('m', module('m', ' '.join(n.text() for n in nodes
                                               if not n.via), **kw))
    own, imp = PREFIXES[ctx.pick('prefixes', spell)]
    files = respell(files, own, imp)
    with folder(files) as d:
        show(ctx, files=files)
        c = compiler(ctx, d, shuffle)
        m = c.compile('m')
        # the module has to be valid, or nothing can be said about it
        bad = errors(c)
        ctx.check(not bad, 'the harness wrote bad YANG: %s' % [
            (str(e[0]), e[1], e[2]) for e in bad])
        for e in m.tree.iter():
            for k, alts in loose.items():
                # what may be said in several ways, or not at all
                if k in e.attrib:
                    ctx.check(e.get(k) in alts, 'wrong ' + k)
                    del e.attrib[k]
        same(ctx, m, [n.expect('m', urls) for n in nodes], ordered,
             pre=own['m'])
        if loose:
            return m
        ctx.check(sorted((raw(u), raw(x)) for u, x in m.urls.items()) ==
                  sorted(('urn:' + n, own[n]) for n in files
                         if 'submodule' not in files[n][:9]),
                  'wrong prefixes of the namespaces')
        ctx.check(m.prefix_to_url(own['m'] + ':a') == '{urn:m}a' and
                  m.prefix_to_url('a') == '{urn:m}a' and
                  m.url_to_prefix('{urn:m}a') == own['m'] + ':a',
                  'prefix_to_url, url_to_prefix')
        str(m)
        # from the cache, by the same and by another compiler
        for c2 in (c, compiler(ctx, d, shuffle)):
            m2 = c2.compile('m')
            ctx.check([got(e) for e in m2.tree] == [got(e) for e in m.tree],
                      'the cached model differs')
            ctx.check((m2.name, m2.prefix, m2.url, m2.prefixes, m2.urls) ==
                      (m.name, m.prefix, m.url, m.prefixes, m.urls),
                      'the cached model has other prefixes')
        return m


CONF = [None, 'true', 'false']


def structure(ctx, env, top):
    """kinds of nodes below each other, with config statements"""
    def conf(name, up):
        # only data nodes outside of rpcs have config; true is not allowed
        # below false
        if top in ('rpc', 'notification'):
            return None
        c = ctx.pick(name, CONF)
        ctx.assume(not (c == 'true' and not up))
        return c

    c1 = conf('config1', True)
    up1 = c1 != 'false'
    k2 = ctx.pick('kind2', ['container', 'list', 'choice', 'case', 'leaf',
                            'leaf-list'])
    c2 = conf('config2', up1) if k2 != 'case' else None
    up2 = up1 and c2 != 'false'
    k3 = ctx.pick('kind3', ['leaf', 'leaf-list', 'container'])
    c3 = conf('config3', up2)
    n3 = Y(k3, 'c', config=c3)
    if k2 in ('leaf', 'leaf-list'):
        ctx.assume(k3 == 'leaf' and c3 is None)
        n2 = Y(k2, 'b', config=c2)
    elif k2 == 'case':
        ctx.assume(top == 'choice')
        n2 = Y(k2, 'b', n3)
    elif k2 == 'list':
        n2 = Y('list', 'b', Y('leaf', 'k'), n3, key='k', config=c2)
    elif k2 == 'choice':
        n2 = Y('choice', 'b', n3, config=c2)
    else:
        n2 = Y(k2, 'b', n3, config=c2)
    if top == 'list':
        n1 = Y('list', 'a', Y('leaf', 'k1'), n2, key='k1', config=c1)
    elif top == 'rpc':
        n1 = Y('rpc', 'a', Y('input', 'input', n2),
               Y('output', 'output', Y('leaf', 'z')))
        if ctx.bool('output'):
            n1 = Y('rpc', 'a', Y('input', 'input', Y('leaf', 'z')),
                   Y('output', 'output', n2))
    elif top == 'notification':
        n1 = Y('notification', 'a', n2)
    else:
        ctx.assume(not (top == 'choice' and k2 == 'choice' and False))
        n1 = Y(top, 'a', n2, config=c1)
    nodes = [n1, Y('leaf', 'last')]
    if top in ('rpc', 'notification'):
        # data nodes come first
        m = [nodes[1], nodes[0]]
    else:
        m = nodes
    compile_one(ctx, m)


# type text, datatype, values, members
TYPES = [('type string;', 'string', None, None),
         ('type int8 { range "1..5"; }', 'int8', None, None),
         ('type boolean;', 'boolean', 'true|false', None),
         ('type enumeration { enum x; enum "y z"; }', 'enumeration', 'x|y z',
          None),
         ('type td;', 'td', None, None), ('type te;', 'te', 'p|q', None),
         ('type te2;', 'te2', 'p|q', None),
         ('type union { type boolean; type te; type int8; }', 'union',
          'true|false|p|q', 'boolean|te|int8'),
         ('type leafref { path "../t"; }', '-> ../t', None, None),
         ('type leafref { path "/m:c/m:t"; }', '-> /c/t', None, None),
         ('type leafref { path "/o:oc/o:ot"; }', '-> /o:oc/ot', None, None),
         ('type leafref { path "/o:oc/m:mt"; }', '-> /o:oc/m:mt', None, None),
         ('type leafref { path "../m:t"; }', '-> ../t', None, None),
         ('type ol;', 'ol', None, None),
         ('type te { enum q; }', 'te', (None, 'q'), None),
         ('type union { type te; type te2; type union { type boolean; } }',
          'union', ('p|q|p|q|true|false', 'p|q|true|false'),
          'te|te2|union'),
         ('type empty;', 'empty', None, None),
         ('type instance-identifier;', 'instance-identifier', None, None),
         ('type bits { bit b1; bit b2; }', 'bits', None, None)]
TD = ('typedef td { type string; } typedef te { type enumeration { enum p; '
      'enum q; } } typedef te2 { type te; } typedef ol { type leafref { path '
      '"/o:oc/o:ot"; } } augment "/o:oc" { leaf mt { type string; } } ')


def types(ctx, env):
    kind = ctx.pick('kind', ['leaf', 'leaf-list'])
    t, dt, vals, mem = ctx.pick('type', TYPES)
    ctx.assume(not (kind == 'leaf-list' and dt == 'empty' and False))
    m = Y(kind, 'a', type=t, datatype=dt, values=vals, members=mem)
    n = Y(kind, 'a', type=t, datatype=dt, members=mem)
    if not isinstance(vals, tuple):
        n = m
    compile_one(ctx, [Y('container', 'c', Y('leaf', 't'), n)], {'o': module(
        'o', 'container oc { leaf ot { type string; } } ')}, head=TD,
        imports=[('o', 'o')],
        loose={'values': vals} if isinstance(vals, tuple) else {})


def attributes(ctx, env, kind):
    """every combination of the attributes of a node"""
    kw = {}
    if ctx.bool('status'):
        kw['status'] = ctx.pick('which status', ['current', 'deprecated',
                                                 'obsolete'])
    fs = ctx.subset('features', ['f1', 'f2'])
    if fs:
        kw['features'] = fs
    if kind in ('leaf', 'choice'):
        kw['mandatory'] = ctx.pick('mandatory', [None, 'true', 'false'])
    if kind == 'leaf' and kw['mandatory'] != 'true' and ctx.bool('default'):
        kw['default'] = [raw(ctx.str('value', 2, SPACED))]
    if kind == 'leaf-list':
        n = ctx.choice('defaults', 3)
        if n:
            kw['default'] = [raw(ctx.str('value%d' % i, 1, C.QUOTED)) + str(i)
                             for i in range(n)]
    if kind in ('leaf-list', 'list'):
        kw['ordered'] = ctx.pick('ordered', [None, 'user', 'system'])
    kids = []
    if kind == 'container':
        if ctx.bool('presence'):
            kw['presence'] = raw(ctx.str('presence text', 1, C.QUOTED))
    if kind == 'list':
        ks = ctx.pick('key', ['k', 'k j', 'j k', None])
        if ks is None:
            kw['config'] = 'false'
        else:
            kw['key'] = ks
        kids = [Y('leaf', 'k'), Y('leaf', 'j'), Y('leaf', 'i')]
    if kind == 'choice':
        kids = [Y('case', 'c1', Y('leaf', 'x1')), Y('leaf', 'x2'),
                Y('case', 'c3', Y('container', 'x3'))]
        if not kw.get('mandatory') == 'true' and ctx.bool('default case'):
            kw['default'] = [ctx.pick('case', ['c1', 'x2'])]
    if kind == 'container':
        kids = [Y('leaf', 'x')]
    n = Y(kind, 'a', *kids, **kw)
    compile_one(ctx, [Y('container', 'c', n, presence='p')],
                features=['f1', 'f2'])


HOW = ['grouping', 'imported grouping', 'nested grouping', 'submodule',
       'augment own', 'augment', 'augment sub', 'refine', 'deviate add',
       'deviate replace', 'deviate not-supported', 'deviate delete',
       'augment uses', 'augment case', 'augment list', 'augment twice',
       'feature of augment', 'sub grouping', 'sub typedef', 'sub of sub']


def sources(ctx, env, hows):
    """nodes that come from elsewhere"""
    how = ctx.pick('how', hows)
    x = raw(ctx.str('default', 1, C.QUOTED))
    files, kw = {}, {}
    ordered = True
    g = 'grouping g { leaf gl { type string; default "%s"; } container gc ' \
        '{ config false; leaf gm { type boolean; } } } ' % x
    gl = Y('leaf', 'gl', default=[x], via=1)
    gc = Y('container', 'gc', Y('leaf', 'gm', datatype='boolean',
                                values='true|false'), config='false', via=1)
    base = [Y('leaf', 'b')]
    o = None
    if how == 'grouping':
        c = Y('container', 'c', gl, gc, extra='uses g;')
        kw['head'] = g
    elif how == 'nested grouping':
        c = Y('container', 'c', gl, gc, extra='uses h;')
        kw['head'] = 'grouping h { uses g; } ' + g
    elif how == 'imported grouping':
        c = Y('container', 'c', gl, gc, extra='uses o:g;')
        kw['imports'] = [('o', 'o')]
        o = module('o', g)
    elif how == 'refine':
        gl.kw['default'] = [x + 'z']
        gl.kw['mandatory'] = 'false'
        gc.kw['presence'] = 'p'
        c = Y('container', 'c', gl, gc, extra='uses g { refine gl { default '
              '"%sz"; mandatory false; } refine gc { presence p; } }' % x)
        kw['head'] = g
    elif how == 'submodule':
        c = Y('container', 'c', *base)
        kw['includes'] = ['s']
        files['s'] = module('s', Y('container', 'sc', Y('leaf', 'l', default=[
            x])).text(), belongs=('m', 'm'))
        sc = Y('container', 'sc', Y('leaf', 'l', default=[x]), via=1)
        compile_one(ctx, [c, sc], files, ordered=False, shuffle=True,
                    spell=list(PREFIXES), **kw)
        return
    elif how in ('sub grouping', 'sub typedef', 'sub of sub'):
        # s adds something that m, or another submodule, uses
        kw['includes'] = ['s', 's2']
        tl = Y('leaf', 'tl', type='type t;', datatype='t', values='p|q',
               mod='m')
        td = 'typedef t { type enumeration { enum p; enum q; } } '
        # (pyang does not let a submodule augment what its module defines)
        use = ctx.pick('used in', ['m', 's2'])
        sc = Y('container', 'sc', via=1)
        if how == 'sub grouping':
            defs, use_text, more = g, 'uses g; ', [gl, gc]
        elif how == 'sub typedef':
            defs, use_text, more = td, tl.text(), [tl]
        else:
            # what a submodule includes may be used in it
            defs, use_text, more = 'grouping h { uses g2; } ', 'uses h; ', \
                [gl, gc]
            files['s3'] = module('s3', g.replace('grouping g', 'grouping g2'),
                                 belongs=('m', 'm'))
            kw['includes'] = ['s', 's2', 's3']
        files['s'] = module('s', defs, belongs=('m', 'm'), includes=[
            's3'] if how == 'sub of sub' else [])
        text = 'container sc { %s } ' % use_text
        files['s2'] = module('s2', text if use == 's2' else '', belongs=(
            'm', 'm'), includes=['s'])
        if use == 'm':
            kw['head'] = text
        sc.kids = more
        for i in more:
            i.via = None
        compile_one(ctx, [sc], files, ordered=False, shuffle=True,
                    spell=list(PREFIXES), **kw)
        return
    elif how == 'augment own':
        c = Y('container', 'c', *(base + [Y('leaf', 'oa', default=[x],
                                            via=1)]))
        kw['head'] = 'augment "/m:c" { leaf oa { type string; default "%s"; ' \
            '} } ' % x
    elif how in ('augment', 'augment sub', 'feature of augment'):
        f, own = [], []
        if how == 'feature of augment':
            f = ctx.subset('features of the augment', ['f1', 'f2'])
            own = ctx.subset('features of the node', ['f1', 'f3'])
        oa = Y('leaf', 'oa', default=[x], via=1, mod='o', features=own + [
            i for i in f if i not in own])
        c = Y('container', 'c', *(base + [oa]))
        t = 'augment "/m:c" { %s leaf oa { type string; default "%s"; %s } ' \
            '} ' % (''.join('if-feature %s; ' % i for i in f), x,
                    ''.join('if-feature %s; ' % i for i in own))
        if how == 'augment sub':
            o = module('o', '', includes=['os'])
            files['os'] = module('os', t, imports=[('m', 'm')],
                                 belongs=('o', 'o'))
        else:
            o = module('o', t, imports=[('m', 'mm')],
                       features=['f1', 'f2', 'f3']) \
                .replace('/m:c', '/mm:c')
    elif how == 'augment uses':
        c = Y('container', 'c', *base)
        gl.mod = gc.mod = 'o'
        c.kids += [gl, gc]
        o = module('o', 'augment "/m:c" { uses g; } ' + g,
                   imports=[('m', 'm')])
    elif how == 'augment case':
        oc = Y('case', 'oc', Y('leaf', 'ol', mod='o'), mod='o', via=1)
        c = Y('choice', 'c', Y('case', 'c1', Y('leaf', 'l1')), oc)
        o = module('o', 'augment "/m:c" { case oc { leaf ol { type string; } '
                   '} }', imports=[('m', 'm')])
    elif how == 'augment list':
        ol = Y('list', 'ol', Y('leaf', 'k', mod='o'), Y('leaf', 'l', default=[
            x], mod='o'), key='k', ordered='user', mod='o', via=1)
        c = Y('container', 'c', *(base + [ol]))
        o = module('o', 'augment "/m:c" { %s }' % Y(
            'list', 'ol', Y('leaf', 'k'), Y('leaf', 'l', default=[x]),
            key='k', ordered='user').text(), imports=[('m', 'm')])
    elif how == 'augment twice':
        # p augments what o adds to m
        c = Y('container', 'c', *(base + [Y('container', 'oc', Y(
            'leaf', 'pl', mod='p', via=1), mod='o', via=1)]))
        o = module('o', 'augment "/m:c" { container oc; }',
                   imports=[('m', 'm')])
        files['p'] = module('p', 'augment "/m:c/o:oc" { leaf pl { type '
                            'string; } }', imports=[('m', 'm'), ('o', 'o')])
    else:
        a = dict(type='type string;')
        want = dict(a)
        if how == 'deviate add':
            dv = 'deviate add { default "%s"; }' % x
            want['default'] = [x]
        elif how == 'deviate replace':
            a['default'], want['default'] = ['q'], [x]
            a['config'], want['config'] = 'true', 'false'
            dv = 'deviate replace { default "%s"; config false; }' % x
        elif how == 'deviate delete':
            a['default'] = [x]
            dv = 'deviate delete { default "%s"; }' % x
        else:
            dv = 'deviate not-supported;'
        files['m'] = module('m', Y('container', 'c', Y('leaf', 'b'),
                                   Y('leaf', 'd', **a)).text())
        kids = [Y('leaf', 'b')]
        if how != 'deviate not-supported':
            kids.append(Y('leaf', 'd', **want))
        c = Y('container', 'c', *kids)
        o = module('o', 'deviation "/m:c/m:d" { %s }' % dv,
                   imports=[('m', 'm')])
    if o:
        files['o'] = o
    compile_one(ctx, [c], files, ordered=False, shuffle=True,
                urls={'m': 'urn:m', 'o': 'urn:o', 'p': 'urn:p'},
                spell=list(PREFIXES), **kw)


def identities(ctx, env, n, spell=('names',)):
    """identityref values: the identities derived from the base"""
    # ids may be in m, in o (imported by m) or in z (imports m and o); they
    # have up to two bases
    where = {'base': ctx.pick('base in', ['m', 'o'])}
    ids = ['base'] + ['d%d' % i for i in range(n)]
    reach = {'m': ['m', 'o'], 'o': ['o'], 'z': ['z', 'm', 'o']}
    bases = {'base': []}
    for i, d in enumerate(ids[1:]):
        where[d] = ctx.pick(d + ' in', ['m', 'o', 'z'])
        can = [b for b in ids[:i + 1] if where[b] in reach[where[d]]]
        ctx.assume(can)
        bases[d] = [ctx.pick(d + ' base', can)]
        two = [b for b in can if b not in bases[d]]
        if two and ctx.bool(d + ' two bases'):
            bases[d].append(ctx.pick(d + ' base2', two))
    body = {'m': [], 'o': [], 'z': []}
    for d in ids:
        own = ctx.bool(d + ' prefixed') if n == 1 else False
        body[where[d]].append('identity %s { %s }' % (d, ' '.join(
            'base %s;' % (b if where[b] == where[d] and not own else
                          where[b] + ':' + b) for b in bases[d])))
    if ctx.bool('backwards'):
        for v in body.values():
            v.reverse()
    b = ('' if where['base'] == 'm' else 'o:') + 'base'
    leaf = 'leaf a { type identityref { base %s; } } ' % b
    files = {'m': module('m', leaf + ' '.join(body['m']),
                         imports=[('o', 'o')]),
             'o': module('o', ' '.join(body['o'])),
             'z': module('z', ' '.join(body['z']),
                         imports=[('m', 'm'), ('o', 'o')])}
    own, imp = PREFIXES[ctx.pick('prefixes', spell)]
    files = respell(files, own, imp)
    if where['base'] == 'o':
        b = imp('m', 'o') + ':base'
    want = sorted(own[where[d]] + ':' + d for d in ids if 'base' in bases[d])
    show(ctx, files=files, want=want)
    with folder(files) as d:
        c = compiler(ctx, d, True)
        if ctx.bool('o first'):
            c.compile('o')
        m = c.compile('m')
        bad = errors(c)
        ctx.check(not bad, 'the harness wrote bad YANG: %s' % bad)
        e = m.tree[0]
        vals = e.get('values')
        show(ctx, got=vals)
        ctx.check(sorted(vals.split('|') if vals else []) == want,
                  'values are not the identities derived from the base')
        ctx.check(e.get('datatype') == 'identityref:' + b, 'wrong datatype')


def sub_identities(ctx, env):
    """identities and leafs of submodules are those of the module"""
    where = {n: ctx.pick(n + ' in', ['m', 's', 't']) for n in
             ('base', 'd1', 'd2', 'leaf')}
    body = {'m': '', 's': '', 't': ''}
    pre = {n: ctx.pick(n + ' prefix', ['', 'm:']) for n in ('d', 'leaf')}
    body[where['base']] += 'identity base; '
    body[where['d1']] += 'identity d1 { base %sbase; } ' % pre['d']
    body[where['d2']] += 'identity d2 { base %sbase; } ' % pre['d']
    a = 'leaf a { type identityref { base %sbase; } } ' % pre['leaf']
    body[where['leaf']] += a
    inc = {'s': [], 't': ['s']}
    # a submodule sees what it includes and, in YANG 1.1, its module does
    see = {'m': 'mst', 's': 's', 't': 'ts'}
    ctx.assume(all(where['base'] in see[where[n]]
                   for n in ('d1', 'd2', 'leaf')))
    files = {'m': module('m', body['m'], includes=['s', 't'])}
    for n in 'st':
        files[n] = module(n, body[n], belongs=('m', 'm'), includes=inc[n])
    files['o'] = module('o', 'identity od { base m:base; } ',
                        imports=[('m', 'm')])
    own, imp = PREFIXES[ctx.pick('prefixes', ['names', 'own', 'import'])]
    files = respell(files, own, imp)
    want = sorted([own['m'] + ':d1', own['m'] + ':d2', own['o'] + ':od'])
    show(ctx, files=files, want=want)
    with folder(files) as d:
        c = compiler(ctx, d, True)
        m = c.compile('m')
        bad = errors(c)
        ctx.check(not bad, 'the harness wrote bad YANG: %s' % bad)
        vals = m.tree[0].get('values') or ''
        show(ctx, got=vals)
        ctx.check(sorted(vals.split('|')) == want,
                  'values are not the identities derived from the base')


def derived_in_sub(ctx, env):
    """identities of submodules that are derived from those of others"""
    at = ctx.pick('identity in', 'ms')
    also = ctx.pick('m imports', [(), ('p', 'i'), ('i', 'x'), ('i', 'i')])
    files = {
        'i': module('i', 'identity base; leaf a { type identityref { base '
                    'base; } } '),
        'p': module('p', 'identity base; leaf a { type identityref { base '
                    'base; } } '),
        's': module('s', '', belongs=('m', 'm'))}
    d = 'identity d { base i:base; } '
    m_imports = [also] if also else []
    if at == 'm':
        ctx.assume(('i', 'i') in m_imports)
        files['m'] = module('m', d, imports=m_imports, includes=['s'])
    else:
        files['m'] = module('m', '', imports=m_imports, includes=['s'])
        files['s'] = module('s', d, belongs=('m', 'm'), imports=[('i', 'i')])
    show(ctx, files=files)
    with folder(files) as f:
        c = compiler(ctx, f, True)
        for n in ctx.pick('order', ['ip', 'pi']):
            m = c.compile(n)
            bad = errors(c)
            ctx.check(not bad, 'the harness wrote bad YANG: %s' % bad)
            got = m.tree[0].get('values')
            show(ctx, n=n, got=got)
            ctx.check(got == ('m:d' if n == 'i' else None), 'values are not '
                      'the identities derived from the base')


def far_identities(ctx, env):
    """identityrefs that are written in other modules"""
    # i has the base; o imports i under a prefix that means p, which has an
    # identity with the same name, in m; s is a submodule of m or o
    base = ctx.pick('base', ['i:base', 'o:base'])
    owner = base[0]
    how = ctx.pick('how', ['typedef', 'grouping', 'augment', 'sub typedef',
                           'sub grouping', 'sub leaf', 'deviation'])
    inside = owner == 'o' and ctx.bool('without prefix')
    ref = 'base' if inside else base
    t = 'type identityref { base %s; } ' % ref
    of = how.startswith('sub') and not inside and ctx.pick(
        'submodule of', ['m', 'o']) or 'o'
    if how == 'sub leaf':
        of = 'm'
        ctx.assume(not inside)
    # (pyang does not show a submodule what its module defines)
    ctx.assume(not (how.startswith('sub') and owner == of))
    defs, m = '', ''
    dt = 'identityref:' + ref
    mod = None
    if 'typedef' in how:
        defs = 'typedef t { %s } ' % t
        dt = 't' if of == 'm' else 'o:t'
        m = 'leaf a { type %s; } ' % dt
    elif 'grouping' in how:
        defs = 'grouping g { leaf a { %s } } ' % t
        m = 'uses %s; ' % ('g' if of == 'm' else 'o:g')
    elif how == 'augment':
        m = 'container c { } '
        defs = 'augment "/m:c" { leaf a { %s } } ' % t
        mod = 'o'
    elif how == 'deviation':
        m = 'container c { leaf a { type string; } } '
        defs = 'deviation "/m:c/m:a" { deviate replace { %s } } ' % t
    else:
        defs = 'leaf a { %s } ' % t
    files = {
        'i': module('i', 'identity base; identity id { base base; } '),
        'p': module('p', 'identity base; identity pd { base base; } ')}
    o_imports = [('i', 'i')]
    m_imports = [('p', 'i')]
    o = 'identity base; identity od { base base; } '
    if how in ('augment', 'deviation'):
        o_imports.append(('m', 'm'))
    else:
        m_imports.append(('o', 'o'))
    inc = {'m': [], 'o': []}
    if how.startswith('sub'):
        inc[of] = ['s']
        # where the submodule is, only it imports i
        files['s'] = module('s', defs, belongs=(of, of), imports=(
            [('i', 'i')] if owner == 'i' else []) + (
            [('o', 'o')] if of == 'm' else []))
    else:
        o += defs
    files['o'] = module('o', o, imports=o_imports, includes=inc['o'])
    files['m'] = module('m', m, imports=m_imports, includes=inc['m'])
    want = {'i': 'i:id', 'o': 'o:od'}[owner]
    show(ctx, files=files, want=want)
    with folder(files) as d:
        c = compiler(ctx, d, True)
        m = c.compile('m')
        bad = errors(c)
        ctx.check(not bad, 'the harness wrote bad YANG: %s' % bad)
        e, = [e for e in m.tree.iter() if e.get('type') == 'leaf']
        show(ctx, got=e.get('values'))
        ctx.check(e.get('values') == want, 'values are not the identities '
                  'derived from the base')


def history(ctx, env):
    """a model does not depend on what was compiled before"""
    files = {
        'm': module('m', 'identity i; identity j { base i; } container c { '
                    'leaf a { type identityref { base i; } } leaf b { type '
                    'o:e; } }', imports=[('o', 'o')]),
        'o': module('o', 'typedef e { type enumeration { enum "x"; enum y; } '
                    '} identity k; leaf oa { type e; default x; } leaf ok { '
                    'type identityref { base k; } }'),
        'p': module('p', 'identity l { base m:i; } identity n { base o:k; } '
                    'augment "/m:c" { leaf pa { type boolean; } } leaf pk { '
                    'type identityref { base o:k; } }',
                    imports=[('m', 'm'), ('o', 'o')]),
        'q': module('q', 'identity i; leaf qa { type identityref { base i; } '
                    '}')}
    order = ctx.pick('order', list(itertools.permutations('mopq')))
    with folder(files) as d:
        c = compiler(ctx, d, True)
        ms = {n: c.compile(n) for n in order}
        for n in order:
            with folder(files) as d2:
                compiler(ctx, d2)
                # it reads what the first one has found out
                c2 = compiler(ctx, d2)
                alone = c2.compile(n)
            a, b = sorted(unordered(got(e)) for e in ms[n].tree), \
                sorted(unordered(got(e)) for e in alone.tree)
            a, b = values_sorted(a), values_sorted(b)
            show(ctx, n=n, got=a, want=b)
            ctx.check(a == b, 'a model depends on the models compiled before')
            ctx.check((ms[n].prefixes, ms[n].urls) ==
                      (alone.prefixes, alone.urls), 'prefixes depend on the '
                      'models compiled before')


def values_sorted(t):
    def f(x):
        return (x[0], tuple((k, '|'.join(sorted(v.split('|'))))
                            for k, v in x[1]), tuple(f(c) for c in x[2]))
    return [f(x) for x in t]


def statement(ctx, env):
    """get_statement finds the statement that defines a node"""
    from .wire import device, ERROR, BASE
    # (xpaths cannot tell modules with the same prefix apart)
    spell = ctx.pick('prefixes', [x for x in PREFIXES if x != 'shared'])
    own, imp = PREFIXES[spell]
    # o adds nodes that have the names of what m defines
    files = {
        'm': module('m', 'container c { container x { leaf y { type int8; } '
                    '} choice h { case y { leaf z { type int8; } } } list l '
                    '{ key "y x"; leaf y { type int8; } leaf x { type int8; '
                    '} } uses g; } leaf-list y { type int8; } grouping g { '
                    'leaf g { type int8; } }'),
        'o': module('o', 'augment "/m:c" { container x { leaf y { type int16'
                    '; } } leaf y { type int16; } } augment "/m:c/m:x" { '
                    'leaf y { type int16; } } container c { leaf y { type '
                    'int16; } }', imports=[('m', 'm')])}
    files = respell(files, own, imp)
    with folder(files) as d:
        dv, s = device(BASE + ['urn:%s?module=%s' % (n, n) for n in 'mo'],
                       lambda op: ERROR)
        dv.scan_models(folder=d, download='ignore')
        names = ctx.pick('load', ['m', 'mo', 'om'])
        show(ctx, files=files)
        for n in names:
            dv.load_model(n)
        # where the tree of the last model loaded says
        tree = dv.models[names[-1]].tree
        nodes = [e for e in tree.iter() if e is not tree]
        i = ctx.choice('node', len(nodes))
        e = nodes[i]
        if e.get('type') in ('choice', 'case'):
            # no xpath leads to them in data
            return
        st = dv.get_statement(e)
        up = ['{urn:%s}%s' % (x.i_module.i_modulename, x.arg)
              for x in above(st)] if st is not None else None
        want = [x.tag for x in [e] + list(e.iterancestors())
                if x is not tree]
        show(ctx, node=e.tag, got=up, want=want)
        if st is not None:
            ctx.check(st.keyword == e.get('type') and up == want,
                      'the statement of another node')
        want = [x for x in want]
        ctx.check(st is not None or any(
            x.get('type') == 'case' for x in e.iterancestors()),
            'no statement of a node')


def above(st):
    while st.keyword not in ('module', 'submodule'):
        yield st
        if hasattr(st, 'i_augment'):
            st = st.i_augment.i_target_node
        else:
            st = st.parent


def cases(ctx, env):
    """modules whose names differ little are different modules"""
    n1, n2 = ctx.pick('names', [('ab', 'Ab'), ('ab', 'ab.c'), ('a-b', 'a_b'),
                                ('a', 'a.xml'), ('ab', 'abc')])
    x, y = [raw(ctx.str('default %d' % i, 1, C.QUOTED)) for i in (1, 2)]
    files = {n: module(n, 'leaf l%s { type string; default "%s"; }' % (
        n[-1], z)) for n, z in ((n1, x), (n2, y))}
    if ctx.bool('backwards'):
        n1, n2, x, y = n2, n1, y, x
    with folder(files) as d:
        for c in (compiler(ctx, d), compiler(ctx, d)):
            for n, z in ((n1, x), (n2, y)):
                m = c.compile(n)
                ctx.check(m.name == n and [got(e)[:2] for e in m.tree] == [(
                    '{urn:%s}l%s' % (n, n[-1]), {
                        'type': 'leaf', 'access': 'read-write', 'datatype':
                        'string', 'default': z})], 'the model of another '
                    'module')


def wrong(ctx, env):
    """a submodule cannot be compiled on its own"""
    files = {'m': module('m', 'leaf a { type string; }', includes=['s']),
             's': module('s', 'leaf b { type string; }', belongs=('m', 'm'))}
    with folder(files) as d:
        c = compiler(ctx, d)
        n = ctx.pick('name', ['m', 's'])
        try:
            m = c.compile(n)
        except ValueError:
            ctx.check(n == 's', 'a module cannot be compiled')
        else:
            ctx.check(n == 'm' and sorted(e.tag for e in m.tree) ==
                      ['{urn:m}a', '{urn:m}b'], 'wrong nodes')


SCENARIOS = [Scenario('structure ' + t, structure, 'three levels, config at '
                      'every level', top=t)
             for t in ('container', 'list', 'choice', 'rpc', 'notification')]
SCENARIOS += [Scenario('attributes ' + k, attributes, 'all combinations of '
                       'the attributes of a ' + k, kind=k)
              for k in ('leaf', 'leaf-list', 'list', 'container', 'choice')]
SCENARIOS += [
    Scenario('types', types, '19 types of leafs and leaf-lists'),
    Scenario('sources', sources, '20 ways to add or change nodes from '
             'elsewhere, any iteration order of modules', hows=HOW),
    Scenario('identities 1', identities, 'a base and 1 identity in up to 3 '
             'modules, 5 ways to choose prefixes', n=1,
             spell=list(PREFIXES)),
    Scenario('identities 2', identities, 'a base and 2 identities in up to 3 '
             'modules, up to 2 bases each', n=2),
    Scenario('identities 3', identities, 'a base and 3 identities', n=3,
             tier='thorough'),
    Scenario('identities of submodules', sub_identities, 'a base, 3 '
             'identities and a leaf in a module and 2 submodules, 3 ways to '
             'choose prefixes'),
    Scenario('identities of others', far_identities, '7 ways to write an '
             'identityref in another module or submodule'),
    Scenario('identities from submodules', derived_in_sub, 'an identity in a '
             'module or submodule, 4 ways to import'),
    Scenario('history', history, '4 modules in any order'),
    Scenario('statement', statement, '2 modules that define the same names, 4 '
             'ways to choose prefixes, any order'),
    Scenario('names', cases, '2 modules, 5 pairs of names'),
    Scenario('submodule', wrong, 'module and submodule'),
]
