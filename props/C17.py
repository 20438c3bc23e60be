"""models_loadable: the models a device announces, by whichever means."""
from symex import ctx as C
from symex.engine import Domain, s_and, s_or, s_not
from symex.runner import Scenario
from symex.symstr import raw, SymStr
from . import lib, wire
from .common import LIBXML, show

MODULES = ['ncdiff.manager']
ASSUMPTIONS = [
    'The session below ncclient is a stand-in that answers <get> requests; '
    'ncclient itself runs natively.', LIBXML]
# characters of YANG identifiers (RFC 7950 section 6.2)
IDENT = Domain('a-z _ - .', 45, 122, only='abcdefghijklmnopqrstuvwxyz_-.')
YL = 'urn:ietf:params:netconf:capability:yang-library:1.0'
YLS = [YL + '?revision=2016-06-21', YL,
       YL + '?revision=2016-06-21&module-set-id=1', YL + '?module-set-id=1']
MON = '?module=ietf-netconf-monitoring'
MONS = [wire.NCM, wire.NCM + MON, wire.NCM + MON + '&revision=2010-10-04']


def setup():
    import ncdiff.manager
    return None


def names(ctx, n, what, lens=(3,)):
    out = []
    for i in range(ctx.choice('#' + what, n + 1)):
        ln = ctx.pick('%s%d.len' % (what, i), lens)
        s = ctx.str('%s%d' % (what, i), ln, IDENT)
        ctx.assume(s_and([s_not(lib.val_eq(raw(s)[0], c)) for c in '-.']))
        for x in out:
            ctx.assume(s_not(lib.val_eq(x, s)))
        out.append(s)
    return out


def monitoring(mods):
    return '<data><netconf-state xmlns="%s"><schemas>%s</schemas>' \
        '</netconf-state></data>' % (wire.NCM, ''.join(
            '<schema><identifier>%s</identifier><version>1</version><format>'
            'yang</format></schema>' % raw(m) for m in mods))


def library(mods):
    return '<data><modules-state xmlns="%s">%s</modules-state></data>' % (
        wire.YLIB, ''.join('<module><name>%s</name><revision/></module>' %
                           raw(m) for m in mods))


def same_set(got, want):
    return s_and([len(got) == len(want)] +
                 [s_or([lib.val_eq(g, w) for w in want]) for g in got] +
                 [s_or([lib.val_eq(g, w) for g in got]) for w in want])


def is_sorted(got):
    return s_and([SymStr(raw(a)) <= SymStr(raw(b))
                  for a, b in zip(got, got[1:])])


def sources(ctx, env):
    """which source is used, and what is read from it"""
    mon = ctx.pick('monitoring', ['absent', 'ok', 'error', 'exception'])
    lib_ = ctx.pick('library', ['absent', 'ok', 'error', 'exception'])
    a = names(ctx, 2, 'mon') if mon == 'ok' else []
    b = names(ctx, 2, 'lib') if lib_ == 'ok' else []
    c = names(ctx, 1, 'cap')
    caps = list(wire.BASE)
    caps += [SymStr('urn:x%d?module=%s&revision=2024-01-01' % (i, raw(m)))
             for i, m in enumerate(c)]
    if mon != 'absent':
        caps.append(ctx.pick('monitoring capability', MONS))
        if MON in caps[-1]:
            c = c + ['ietf-netconf-monitoring']
    if lib_ != 'absent':
        caps.append(ctx.pick('library capability', YLS))

    def answer(op):
        if op.find('.//{%s}netconf-state' % wire.NCM) is not None:
            how, body = mon, monitoring(a)
        elif op.find('.//{%s}modules-state' % wire.YLIB) is not None:
            how, body = lib_, library(b)
        else:
            how, body = 'error', None
        if how == 'ok':
            return body
        if how == 'exception':
            return RuntimeError('session lost')
        return wire.ERROR

    d, s = wire.device(caps, answer, abbreviations=False)
    d.raise_mode = ctx.pick('raise_mode', [0, 2])
    got = d.models_loadable
    show(ctx, caps=caps, got=got)
    want = a if mon == 'ok' else b if lib_ == 'ok' else c
    ctx.check(same_set(got, want), 'not the models announced by the device')
    ctx.check(is_sorted(got), 'not sorted')
    n = len(s.sent)
    ctx.check(same_set(d.models_loadable, want) and len(s.sent) == n,
              'a second look differs or asks the device again')


FORMS = ['urn:x?module=%s', 'urn:x?module=%s&revision=2024-01-01',
         'http://x.com/y?revision=2024-01-01&module=%s',
         'urn:x?module=%s&revision=2024-01-01&features=a,b&deviations=d-e',
         'urn:x']


def capabilities(ctx, env, n, lens):
    """capability URIs of RFC 6020 section 5.6.4"""
    mods = names(ctx, n, 'm', lens)
    caps, want = list(wire.BASE), []
    for i, m in enumerate(mods):
        f = ctx.pick('form%d' % i, FORMS)
        if '%s' in f:
            caps.append(SymStr(f % raw(m)))
            want.append(m)
        else:
            caps.append(f)
    d, s = wire.device(caps, abbreviations=False)
    got = d.models_loadable
    show(ctx, caps=caps, got=got)
    ctx.check(same_set(got, want), 'not the models in the capabilities')
    ctx.check(is_sorted(got), 'not sorted')
    ctx.check(not s.sent, 'a device without ietf-netconf-monitoring and '
              'ietf-yang-library is asked for them')


SCENARIOS = [
    Scenario('sources', sources, 'ietf-netconf-monitoring, ietf-yang-library '
             'and capabilities present, absent or failing; <=2 models of '
             '3 characters each'),
    Scenario('capabilities', capabilities, '<=2 capabilities of 5 forms, '
             'names of 1 or 4 characters', n=2, lens=(1, 4)),
    Scenario('capabilities 3', capabilities, '<=3 capabilities of 5 forms, '
             'names of 3 characters', n=3, lens=(3,), tier='thorough'),
]
