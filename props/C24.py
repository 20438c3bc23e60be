"""Requests reach the session as the caller made them; replies and
notifications can be queried and printed as they came."""
from copy import deepcopy
from lxml import etree
from symex import ctx as C
from symex.runner import Scenario
from symex.symstr import raw, SymStr
from symex.engine import s_and, s_or, s_not
from . import dev, lib, wire
from .common import LIBXML, show

MODULES = ['ncdiff', 'ncdiff.manager', 'ncdiff.config']
ASSUMPTIONS = [
    'Filters are put into requests by ncclient, where declarations of '
    'prefixes may be dropped: not checked.',
    'ncclient runs natively; the session below it is a stand-in that records '
    'requests and serves replies and notifications.', LIBXML]
NC = lib.NC
EV = 'urn:ietf:params:xml:ns:netconf:notification:1.0'
URLCAP = 'urn:ietf:params:netconf:capability:url:1.0?scheme=https'


def setup():
    return dev.make()


def on_wire(env, caps, answer=None):
    d, s = wire.device(caps, answer)
    d.compiler = env.compiler
    for m in env.models:
        d.models[m] = env.models[m]
    return d, s


def attempt(f, *a, **k):
    try:
        return f(*a, **k), None
    except Exception as e:
        return None, e


# -- trees of any content ----------------------------------------------------
DECL = [None, {'p': 'urn:vx'}, {'q': 'urn:vy'}, {None: 'urn:vx'},
        {'p': 'urn:vy', 'q': 'urn:vx'}]


def anything(ctx, parent, n, comments, attributes):
    """n nodes somewhere below parent, with declarations, attributes, texts,
    comments and text between nodes"""
    open_ = parent
    for i in range(n):
        ns = ctx.pick('ns%d' % i, ['urn:vx', 'urn:vy'])
        decl = ctx.pick('decl%d' % i, DECL)
        e = etree.SubElement(open_, '{%s}n' % ns, nsmap=decl)
        kind = ctx.pick('text%d' % i, ['none', 'any', 'prefixed'])
        if kind == 'any':
            e.text = raw(ctx.str('t%d' % i))
        elif kind == 'prefixed':
            e.text = 'p:' + raw(ctx.str('t%d' % i))
        a = None
        if attributes:
            a = ctx.pick('attribute%d' % i, [None, 'a', '{urn:vy}a',
                                             '{%s}operation' % NC])
        if a is not None:
            e.set(a, raw(ctx.str('a%d' % i)))
        if comments:
            what = ctx.pick('noise%d' % i, ['none', 'comment', 'pi', 'tail',
                                            'comment and tail'])
            if 'comment' in what:
                e.append(etree.Comment('c'))
            if what == 'pi':
                e.insert(0, etree.ProcessingInstruction('x', 'y'))
            if 'tail' in what and len(e):
                e[-1].tail = raw(ctx.str('tail%d' % i))
            elif 'tail' in what:
                e.tail = raw(ctx.str('tail%d' % i))
        if i < n - 1 and ctx.bool('below%d' % i):
            open_ = e
    return parent


def view(e):
    """everything in a tree; namespaces: what each prefix stands for"""
    if not isinstance(e.tag, str):
        return ('noise', raw(e.text or ''))
    out = [e.tag, dict((raw(k), raw(e.attrib[k])) for k in e.attrib),
           dict(e.nsmap), raw(e.text or '')]
    for c in e:
        out.append((view(c), raw(c.tail or '')))
    return out


def same(a, b, decl=True):
    """b has all of a (and perhaps more prefixes)"""
    if a[0] != b[0] or len(a) != len(b):
        return False
    if a[0] == 'noise':
        return a == b
    if decl and any(b[2].get(p) != u for p, u in a[2].items()):
        return False
    if set(a[1]) != set(b[1]):
        return False
    return s_and([lib.val_eq(a[1][k], b[1][k]) for k in a[1]] +
                 [lib.val_eq(a[3], b[3])] +
                 [s_and([same(x[0], y[0], decl), lib.val_eq(x[1], y[1])])
                  for x, y in zip(a[4:], b[4:])])


def sent(ctx, env, n, comments=True, attributes=True):
    """all of what the caller gives is sent"""
    d, s = on_wire(env, wire.BASE + [wire.CANDIDATE])
    how = ctx.pick('how', ['edit-config element', 'edit-config text',
                           'dispatch', 'get filter', 'get filter text'])
    if how.startswith('edit-config'):
        e = etree.Element(wire.q('config'), nsmap={'nc': NC})
    elif how == 'dispatch':
        e = etree.Element('{urn:vx}r', nsmap={None: 'urn:vx'})
    else:
        e = etree.Element(wire.q('filter'), type='subtree')
    anything(ctx, e, n, comments, attributes)
    if how == 'get filter text':
        ctx.assume(len(e) == 1 and not e[0].tail)
    want = view(e)
    if how == 'edit-config element':
        r, x = attempt(d.edit_config, deepcopy(e))
    elif how == 'edit-config text':
        r, x = attempt(d.edit_config, etree.tostring(e, encoding='unicode'))
    elif how == 'dispatch':
        r, x = attempt(d.dispatch, deepcopy(e))
    elif how == 'get filter':
        r, x = attempt(d.get, filter=deepcopy(e))
    else:
        r, x = attempt(d.get, filter=('subtree', etree.tostring(
            e[0], encoding='unicode')))
    show(ctx, how=how, given=etree.tostring(e), error=repr(x),
         sent=[etree.tostring(y) for y in s.sent])
    ctx.check(x is None and len(s.sent) == 1, 'no request')
    if len(s.sent) != 1:
        return
    o = s.sent[0]
    got = {'dispatch': lambda: o,
           'edit': lambda: o.find(wire.q('config')),
           'get ': lambda: o.find(wire.q('filter'))}[
        'dispatch' if how == 'dispatch' else how[:4]]()
    ctx.check(got is not None and same(
        want, view(got), not how.startswith('get')),
              'what is sent is not what was given')
    ctx.check(r.ok, 'reply is lost')


def options(ctx, env):
    """the other parts of an edit-config request"""
    err = ctx.pick('error_option', [None, 'stop-on-error',
                                    'continue-on-error', 'rollback-on-error'])
    test = ctx.pick('test_option', [None, 'set', 'test-then-set'])
    dop = ctx.pick('default_operation', [None, 'none', 'merge', 'replace'])
    caps = ctx.subset('capability', ['rollback-on-error', 'validate', 'url'])
    form = ctx.pick('format', ['xml', 'url', 'text'])
    d, s = on_wire(env, wire.BASE + [URLCAP if c == 'url' else
                   'urn:ietf:params:netconf:capability:%s:1.0' % c
                   for c in caps])
    v = raw(ctx.str('value'))
    if form == 'xml':
        c = etree.Element(wire.q('config'))
        etree.SubElement(c, '{urn:vx}tl').text = v
    else:
        c = 'https://host/' + (v if form == 'text' else 'x')
    kw = dict((k, x) for k, x in (('error_option', err),
                                  ('test_option', test),
                                  ('default_operation', dop)) if x)
    if form != 'xml':
        kw['format'] = form
    r, x = attempt(d.edit_config, SymStr(c) if form != 'xml' else c,
                   target='candidate', **kw)
    show(ctx, kw=kw, caps=caps, error=repr(x),
         sent=[etree.tostring(y) for y in s.sent])
    need = (err == 'rollback-on-error' and 'rollback-on-error' not in caps or
            test and 'validate' not in caps or
            form == 'url' and 'url' not in caps)
    if need:
        ctx.check(x is not None and not s.sent,
                  'a request that the device does not support is sent')
        return
    ctx.check(x is None and len(s.sent) == 1, 'no request')
    if len(s.sent) != 1:
        return
    o = s.sent[0]
    got = {}
    for k in o:
        got[etree.QName(k).localname] = k
    want = {'target'} | set(k.replace('_', '-') for k in kw
                            if k != 'format') | {
        {'xml': 'config', 'url': 'url', 'text': 'config-text'}[form]}
    ctx.check(set(got) == want and len(o) == len(want), 'parts of the '
              'request are lost')
    for k in ('error_option', 'test_option', 'default_operation'):
        if k in kw:
            ctx.check(raw(got[k.replace('_', '-')].text) == kw[k],
                      'wrong ' + k)
    if form == 'xml':
        ctx.check(lib.val_eq(got['config'][0].text, v), 'config is lost')
    elif form == 'url':
        ctx.check(lib.val_eq(got['url'].text, c), 'url is lost')
    else:
        ctx.check(lib.val_eq(got['config-text'][0].text, c), 'text is lost')


# -- replies and notifications -----------------------------------------------
def received(ctx, env, n):
    """every node of a reply or notification is found by a path with the
    prefixes of ns; its text has all of it"""
    import ncdiff
    from ncclient.transport.notify import Notification
    what = ctx.pick('what', ['reply', 'error', 'notification'])
    if what == 'notification':
        e = etree.Element('{%s}notification' % EV)
        top = e
    else:
        e = etree.Element(wire.q('rpc-reply'))
        top = etree.SubElement(e, wire.q('data'))
    urls = ['urn:vx', 'urn:unknown']
    cur = top
    for i in range(n):
        u = ctx.pick('ns%d' % i, urls)
        x = etree.SubElement(cur, '{%s}x' % u, nsmap=ctx.pick(
            'decl%d' % i, [None, {None: u}, {'vy': u}]))
        if ctx.bool('text%d' % i):
            x.text = ctx.pick('t%d' % i, [' ', None])
            if x.text is None:
                x.text = raw(ctx.str('v%d' % i))
        elif i < n - 1 and ctx.bool('below%d' % i):
            cur = x
        if ctx.bool('layout%d' % i):
            x.tail = '\n  '
    if what == 'error':
        e.append(etree.fromstring(wire.ERROR.replace(
            '<rpc-error>', '<rpc-error xmlns="%s">' % NC)))
    if what == 'notification':
        d, s = on_wire(env, wire.BASE)
        note = Notification(etree.tostring(e, encoding='unicode'))
        s.take_notification = lambda block=True, timeout=None: note
        r = d.take_notification(block=True, timeout=1)
        ctx.check(r is note, 'notification is lost')
        root = r.notification_ele
    else:
        d, s = on_wire(env, wire.BASE, lambda o: ''.join(
            etree.tostring(k, encoding='unicode') for k in e))
        from ncclient.operations import RaiseMode
        d.raise_mode = RaiseMode.NONE
        r = d.get()
        ctx.check(r.ok is (what == 'reply'), 'wrong status')
        root = r._root
    show(ctx, what=what, xml=etree.tostring(e), ns=r.ns, text=str(r))
    ctx.check(raw(r.ns.get('vx', 'urn:vx')) == 'urn:vx' and
              ('vx' in r.ns) == any(x.tag.startswith('{urn:vx}')
                                    for x in root.iter()),
              'prefix of a known model')
    back = dict((u, p) for p, u in r.ns.items())
    for x in root.iter():
        path, k = '', x
        while k is not None:
            q = etree.QName(k)
            path = '/%s:%s[%d]' % (raw(back[q.namespace]), q.localname, len(
                [y for y in k.itersiblings(preceding=True)
                 if y.tag == k.tag]) + 1) + path
            k = k.getparent()
        got = r.xpath(path)
        ctx.check(len(got) == 1 and got[0] is x, 'a node is not found')
        own = {'m%d' % i: u for i, u in enumerate(sorted(back))}
        for i, u in enumerate(sorted(back)):
            path = path.replace('/%s:' % raw(back[u]), '/m%d:' % i)
        got = r.xpath(path, namespaces=own)
        ctx.check(len(got) == 1 and got[0] is x, 'namespaces of the caller '
                  'are not used')
    printed = etree.fromstring(str(r), etree.XMLParser(
        remove_blank_text=True))
    ctx.check(same(view(bare(root)), view(bare(printed)), False),
              'the text of a reply is not the reply')
    ctx.check(root.tag in repr(r), 'repr')


def bare(e):
    """without layout"""
    e = deepcopy(e)
    for x in e.iter():
        x.tail = None
        if len(x) and not raw(x.text or '').strip():
            x.text = None
    return e


SCENARIOS = [
    Scenario('sent', sent, '1 node of any content', n=1),
    Scenario('sent 2', sent, '2 nodes, namespaces and values', n=2,
             comments=False, attributes=False),
    Scenario('sent 2 full', sent, '2 nodes, namespaces, values and '
             'attributes', n=2, comments=False, tier='thorough'),
    Scenario('options', options, 'all options of edit-config, 3 '
             'capabilities, 3 formats'),
    Scenario('received', received, '2 nodes, 2 namespaces', n=2),
    Scenario('received 3', received, '3 nodes, 2 namespaces', n=3,
             tier='thorough'),
]
