"""A running-config diff is empty exactly when the configs agree."""
from symex.ctx import NAME
from symex.runner import Scenario
from symex.engine import s_iff
from . import rc
from .rc import MODULES, setup, level, text, equal, L

ASSUMPTIONS = rc.ASSUMPTIONS


def empty(ctx, env, **kw):
    check(ctx, *rc.pair(ctx, kw))


def check(ctx, a, b, ta, tb):
    from ncdiff.runningconfig import RunningConfigDiff
    d = RunningConfigDiff(running1=ta, running2=tb)
    ctx.note('A:\n%s\nB:\n%s\ndiff:\n%s' % (ta, tb, d)
             if not ctx.symbolic else '')
    e = equal(a, b)
    ctx.check(s_iff(not d, e), 'the diff is empty and the configs differ, or '
              'the other way round')
    ctx.check((d.diff is None) == (not d) and (str(d) == '') == (not d) and
              (d.cli == '' if not d else True), 'views of the diff disagree')
    r = RunningConfigDiff(running1=tb, running2=ta)
    ctx.check(bool(r) == bool(d), 'not symmetric')
    ctx.check(bool(d.diff_reverse) == bool(d), 'diff_reverse')
    ctx.check(not RunningConfigDiff(running1=ta, running2=ta),
              'a config differs from itself')


NOISE = ['!', ' !', '! comment', '', '   ', '% text', ' % text',
         'Building configuration...', 'Current configuration : 123 bytes']


def repeats(a, b):
    return any(rc.teq(x.text, y.text) for c in (a, b)
               for i, x in enumerate(c) for y in c[:i]
               if not x.orderless and not y.orderless)


def repeated(ctx, env, **kw):
    """repeated lines and several orderless ones: C10-repeat"""
    a, b, ta, tb = rc.pair(ctx, kw)
    ctx.region('C10-repeat', sum(x.orderless for x in a) > 1 and
               sum(x.orderless for x in b) > 1 and repeats(a, b))
    check(ctx, a, b, ta, tb)


def around(ctx, env):
    """two orderless lines somewhere in two repeated lines: C10-repeat"""
    p = L(ctx.str('plain', 1, NAME))
    x = L('ntp server ' + ctx.str('x', 1, NAME), True)
    y = L('ntp server ' + ctx.str('y', 1, NAME), True)
    ctx.assume(x.text != y.text)
    at = ctx.pick('at', [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)])

    def one(first, second):
        out = [p.copy() for i in range(4)]
        out[at[0]], out[at[1]] = first, second
        return out
    a = one(x, y)
    b = one(x, y) if ctx.bool('same') else one(y, x)
    ctx.region('C10-repeat', a[at[0]] is not b[at[0]])
    check(ctx, a, b, text(a), text(b))


def layout(ctx, env, **kw):
    """comments, blank lines, headers, indentation and trailing spaces"""
    from ncdiff.runningconfig import RunningConfigDiff
    a = level(ctx, 'A', **kw)
    ls = rc.render(a, ctx.pick('width', [1, 2, 3]))
    what = ctx.choice('noise', len(NOISE) + 2)
    at = ctx.choice('at', len(ls) + 1)
    if what < len(NOISE):
        ls.insert(at, NOISE[what])
    elif at < len(ls):
        if what == len(NOISE):
            ls[at] = ls[at] + '  '
        else:
            ls[at] = ls[at] + '\r'
    tb = rc.wrap('\n'.join(ls))
    ta = text(a)
    d = RunningConfigDiff(running1=ta, running2=tb)
    if not ctx.symbolic:
        ctx.note('A: %r\nB: %r\ndiff:\n%s' % (ta, tb, d))
    ctx.check(not d, 'layout matters')
    ctx.check(not RunningConfigDiff(running1=tb, running2=ta),
              'layout matters')


ORDERLESS = [x.split('|') for x in '''
aaa authentication |0
aaa accounting system default |0
aaa attribute list |0
aaa group server |0
radius server |0
logging host |0
flow exporter |0
flow record |0
flow monitor |0
flow file-export |0
exporter |1
dot1x |0
service-template |0
redundancy|0
username |0
parameter-map type |0
match ipv4 |1
match ipv6 |1
match protocol |1
collect connection |1
l2nat instance |0
inside from host |1
outside from host |1
inside from network |1
outside from network |1
inside from range |1
outside from range |1
neighbor |1
neighbor |2
no neighbor |2
crypto keyring |0
crypto tls-tunnel |0
ip helper-address |1
route-target import |1
route-target export |1
default-router |1
dns-server |1
domain-name |1
option |1
lease |1
vlan group |0
ip ospf message-digest-key |1
ospfv3 neighbor |1
ospfv3 1 ipv4 neighbor |1
ospfv3 12 neighbor |1
mobile-network pool |4
mobile-network v6pool |4
router |0
area |1
redistribute |1
redistribute |2
redistribute |3
distribute-list prefix-list |1
ip dns |0
ip route |0
ipv6 route |0
ip multicast-routing |0
ipv6 multicast-routing |0
ip pim vrf |0
ipv6 pim vrf |0
ip pim rp-address |0
ipv6 pim rp-address |0
ip access-list |0
ipv6 access-list |0
ip dhcp pool |0
ipv6 dhcp pool |0
bandwidth remaining ratio |2
ntp server |0
mpls mldp static |0
mpls ldp advertise-labels for |0
device-tracking binding |0
device classifier |0
x tlv-type |1
mac Regex |1
netconf-yang|0
summary-address |1
member vni |1
'''.strip().split('\n')]


def nested(lines, depth):
    """put lines at a depth, under one parent per level"""
    for i in range(depth):
        lines = [rc.L('level%d' % (depth - i), False, lines)]
    return lines


def table(ctx, env):
    """every documented orderless command, at its depth and at another one"""
    from ncdiff.runningconfig import RunningConfigDiff
    head, depth = ctx.pick('command', ORDERLESS)
    depth = int(depth)
    x = head + ctx.str('x', 1, NAME)
    y = head + ctx.str('y', 1, NAME)
    ctx.assume(x != y)
    at = ctx.choice('depth', 5)
    ol = [int(d) for h, d in ORDERLESS if h == head]
    a = nested([rc.L(x), rc.L(y)], at)
    b = nested([rc.L(y), rc.L(x)], at)
    d = RunningConfigDiff(running1=text(a), running2=text(b))
    if not ctx.symbolic:
        ctx.note('A:\n%s\nB:\n%s\ndiff:\n%s' % (text(a), text(b), d))
    ctx.check(bool(d) == (at not in ol), 'order of two orderless lines '
              'matters, or order of two other lines does not')


def resemble(ctx, env):
    """lines that look like headers and comments are lines"""
    from ncdiff.runningconfig import RunningConfigDiff
    x = ctx.str('x', 2, rc.PRINT)
    t = ctx.pick('line', [
        'Current %s', 'current configuration of this device %s',
        'Currently configured users are %s', 'Building %s',
        'building configuration of the device %s', 'a !%s', 'a ! %s', 'a %%%s',
        'a %% %s', 'exit%s', 'client-x %s', 'noclient %s'])
    line = rc.wrap(t % x)
    a = [L('z')]
    b = [L(line), L('z')] if ctx.bool('first') else [L('z'), L(line)]
    if ctx.bool('in section'):
        a, b = [L('interface y', False, a)], [L('interface y', False, b)]
    check(ctx, a, b, text(a), text(b))


def notations(ctx, env, hi=3, tail=False):
    """clients as devices show them and as sections"""
    a = rc.clients(ctx, 'A', hi=hi, lines=1, tail=tail)
    if not tail and ctx.bool('swap'):
        b = [x.copy() for x in a]
        ks = b[0].kids
        ctx.assume(len(ks) > 1)
        i = ctx.choice('at', len(ks) - 1)
        ks[i], ks[i + 1] = ks[i + 1], ks[i]
    else:
        b = a
    ta, tb = rc.client_text(a), text(b, ctx.pick('width', [1, 2]))
    if ctx.bool('trailing'):
        ta = rc.wrap(ta.replace('\n', '  \n'))
    if ctx.bool('swap sides'):
        a, b, ta, tb = b, a, tb, ta
    check(ctx, a, b, ta, tb)


def bang(ctx, env):
    """the line that ends a client command, with trailing spaces or not"""
    from ncdiff.runningconfig import RunningConfigDiff
    x, y, z = (ctx.str(n, 1, NAME) for n in 'xyz')
    t = ['aaa server radius proxy', ' client ' + x, ' ' + y, ' !', ' ' + z]
    if ctx.bool('below'):
        t[2:] = [' ' + i for i in t[2:]]
        if ctx.bool('another'):
            t[4:4] = ['  client 0', '  !']
    u = list(t)
    i = ctx.choice('at', len(t))
    u[i] = u[i] + ctx.pick('spaces', [' ', '   ', '\r'])
    ta, tb = rc.wrap('\n'.join(t)), rc.wrap('\n'.join(u))
    d = RunningConfigDiff(running1=ta, running2=tb)
    if not ctx.symbolic:
        ctx.note('A: %r\nB: %r\ndiff:\n%s' % (ta, tb, d))
    ctx.check(not d, 'trailing spaces matter')
    ctx.check(not RunningConfigDiff(running1=tb, running2=ta),
              'trailing spaces matter')


def replacing(ctx, env):
    """different notations of the same state"""
    from ncdiff.runningconfig import RunningConfigDiff
    x = ctx.str('x', 1, NAME)
    long, short = ctx.pick('command', [
        ('exit-locator-set', 'exit'), ('exit-router-lisp', 'exit')])
    a = rc.wrap('router lisp\n locator-set %s\n  %s\n' % (x, long))
    b = rc.wrap('router lisp\n locator-set %s\n  %s\n' % (x, short))
    d = RunningConfigDiff(running1=a, running2=b)
    ctx.check(not d and not RunningConfigDiff(running1=b, running2=a),
              'notation of exit matters')
    a = rc.wrap('vrf definition %s\n address-family ipv4\n '
                'exit-address-family\n y\n' % x)
    b = rc.wrap('vrf definition %s\n address-family ipv4\n  '
                'exit-address-family\n y\n' % x)
    d = RunningConfigDiff(running1=a, running2=b)
    ctx.check(not d and not RunningConfigDiff(running1=b, running2=a),
              'indentation of exit-address-family matters')


def outdented(ctx, env):
    """a line that is indented less than the first one of its section is in
    the line above it"""
    from ncdiff.runningconfig import RunningConfigDiff
    x = [ctx.str('x%d' % i, 1, NAME) for i in range(4)]
    first, second = ctx.pick('indentations', [(2, 1), (3, 1), (3, 2), (4, 1)])
    n = 1 + ctx.choice('lines', 2)
    a = [L(x[0], False, [L(x[1], False, [L(y) for y in x[2:2 + n]])])]
    ctx.assume(n == 1 or x[2] != x[3])
    ta = rc.wrap('\n'.join([x[0], ' ' * first + x[1]] + [
        ' ' * second + y for y in x[2:2 + n]]) + '\n')
    b = [L(x[0], False, [L(x[1], False)] + [L(y) for y in x[2:2 + n]])]
    for other in (a, b):
        t = text(other)
        d = RunningConfigDiff(running1=ta, running2=t)
        if not ctx.symbolic:
            ctx.note('A:\n%s\nB:\n%s\ndiff:\n%s' % (ta, t, d))
        ctx.check(bool(d) == (other is b), 'not in the line above')


S = dict(hi=2, kinds=['plain', 'o'])
SCENARIOS = [
    Scenario('orderless', empty, 'per side: <=3 lines of two orderless '
             'commands', hi=3, kinds=['o', 'u']),
    Scenario('words', empty, 'per side: <=2 lines, words of 1 or 2 printable '
             'characters', hi=2, kinds=['plain', 'o'], lens=(1, 2),
             dom=rc.PRINT),
    Scenario('signs', empty, 'per side: one section, <=1 line in it, words of '
             '1 or 2 printable characters', lo=1, hi=1, kinds=['sec', 'plain'],
             lens=(1, 2), dom=rc.PRINT,
             sub=dict(hi=1, kinds=['plain'], lens=(1, 2))),
    Scenario('resemble', resemble, 'a line that resembles a header or a '
             'comment, alone or in a section'),
    Scenario('notations', notations, '<=3 client commands with <=1 line each, '
             'as siblings and as sections; possibly another section after '
             'them'),
    Scenario('notations2', notations, '<=2 client commands with <=1 line each, '
             'other lines before and after them', hi=2, tail=True),
    Scenario('bang', bang, 'a client command and what follows it'),
    Scenario('section', empty, 'per side: one section, <=2 lines in it',
             lo=1, hi=1, kinds=['sec'], sub=S),
    Scenario('osection', empty, 'per side: <=2 orderless sections with <=1 '
             'line each', hi=2, kinds=['osec'],
             sub=dict(hi=1, kinds=['plain'])),
    Scenario('sections', empty, 'per side: <=2 sections or orderless '
             'sections with <=1 line', 'thorough', hi=2,
             kinds=['sec', 'osec', 'plain'], sub=dict(hi=1, kinds=['o'])),
    Scenario('deep', empty, 'per side: section in a section, <=2 lines',
             lo=1, hi=1, kinds=['sec'], sub=dict(
                 lo=1, hi=1, kinds=['sec'], sub=S)),
    Scenario('layout', layout, '<=2 lines and a section, one piece of noise '
             'anywhere', hi=2, kinds=['plain', 'sec'],
             sub=dict(hi=1, kinds=['plain'])),
    Scenario('layout_deep', layout, 'section in a section', lo=1, hi=1,
             kinds=['sec'], sub=dict(lo=1, hi=1, kinds=['sec'], sub=dict(
                 lo=1, hi=1, kinds=['plain']))),
    Scenario('outdented', outdented, 'section whose first line is indented by '
             '2 to 4, <=2 lines indented less'),
    Scenario('table', table, 'each of %d documented orderless commands, two '
             'lines, depth 0 to 4' % len(ORDERLESS)),
    Scenario('replacing', replacing, 'exit-locator-set, exit-router-lisp'),
    Scenario('clients', empty, 'per side: <=2 client commands with <=1 line '
             'each', clients=True, hi=2, lines=1),
    Scenario('clients tail', empty, 'per side: <=1 client command with <=1 '
             'line, other lines before and after it', clients=True, hi=1,
             lines=1, tail=True),
    Scenario('clients3', empty, 'per side: <=3 client commands with <=1 line '
             'each', 'thorough', clients=True, hi=3, lines=1),
    Scenario('dup', empty, 'per side: <=3 lines, plain or orderless, plain ones '
             'may repeat', hi=3, kinds=['plain', 'o'], dup=True),
    Scenario('dup_section', empty, 'per side: section with <=3 plain lines that '
             'may repeat', lo=1, hi=1, kinds=['sec'],
             sub=dict(hi=3, kinds=['plain'], dup=True)),
    Scenario('dup4', repeated, 'per side: <=4 lines, plain or orderless, plain '
             'ones may repeat', 'thorough', hi=4, kinds=['plain', 'o'],
             dup=True),
    Scenario('around', around, 'two orderless lines, permuted or not, at any '
             'place among two equal plain lines'),
]
