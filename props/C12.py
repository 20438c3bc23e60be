"""The CLIs of a running-config diff take a device from one config to the
other."""
from symex.ctx import NAME
from symex.symstr import raw
from symex.runner import Scenario
from . import rc
from .rc import MODULES, setup, level, text, same_set, execute, parse_cli, L
from .C10 import S

ASSUMPTIONS = rc.ASSUMPTIONS + [
    'Device model: "no X" removes the line X and the lines that continue X '
    'with more words, where the documented commands are rejected with more '
    'words; a command adds its line, replaces the lines that it '
    'continues with more words and, for commands that hold one value '
    '(description, ip address, password), the line with the old value; '
    'configs have no line that continues another one. The result is compared '
    'up to the order of lines.']


def run(ctx, a, b, ta=None, tb=None, heads=None, shown=None):
    from ncdiff.runningconfig import RunningConfigDiff
    if ta is None:
        ta, tb = text(a), text(b)
    d = RunningConfigDiff(running1=ta, running2=tb)
    if not ctx.symbolic:
        ctx.note('A:\n%s\nB:\n%s\ncli:\n%s\n\ncli_reverse:\n%s' % (
            ta, tb, d.cli, d.cli_reverse))
    for name, cli, x, y in (('cli', d.cli, a, b),
                            ('cli_reverse', d.cli_reverse, b, a)):
        cmds = parse_cli(cli)
        r = execute([k.copy() for k in x], cmds, heads, shown)
        ctx.check(same_set(r, y), name + ' does not lead to the config')
        order(ctx, cmds, x, y)


def negates(cmd, sub):
    """a command that removes something, also in a section"""
    return raw(cmd).startswith('no ') or bool(sub) and negates(*sub[0])


def order(ctx, cmds, x, y):
    """removals from the last line to the first, then additions from the
    first line to the last; lines that are negative themselves, and
    orderless ones, are anywhere"""
    if any(raw(l.text).startswith('no ') for l in x + y):
        return
    last, phase = None, 0
    for cmd, sub in cmds:
        neg = negates(cmd, sub)
        ctx.check(not (neg and phase == 2), 'a removal after an addition')
        if (2 if not neg else 1) != phase:
            last, phase = None, 2 if not neg else 1
        r = raw(cmd)
        t = rc.wrap(r[3:]) if r.startswith('no ') else cmd
        lines = x if neg else y
        at = [n for n, l in enumerate(lines) if rc.teq(l.text, t) or
              neg and rc.word_prefix(t, l.text)]
        if len(at) != 1 or lines[at[0]].orderless:
            continue
        ctx.check(last is None or (at[0] < last if neg else at[0] > last),
                  'order of the commands')
        last = at[0]
        if sub:
            p, q = rc.find(x, t), rc.find(y, t)
            order(ctx, sub, p.kids if p else [], q.kids if q else [])


def cli(ctx, env, **kw):
    run(ctx, *rc.pair(ctx, kw))


def words(ctx, env, hi):
    """commands of one to three words, some of which continue others"""
    def one(side):
        out = []
        for i in range(ctx.choice('%s.#' % side, hi + 1)):
            n = ctx.pick('%s.words %d' % (side, i), [1, 2])
            t = ctx.str('%s.a%d' % (side, i),
                        ctx.pick('%s.len %d' % (side, i), [1, 2]), NAME)
            ctx.assume(t != 'no')
            if n == 2:
                t = t + ' ' + ctx.str('%s.b%d' % (side, i), 1, NAME)
            for x in out:
                ctx.assume(t != x.text)
            out.append(L(t))
        rc.no_prefixes(ctx, out)
        return out
    run(ctx, one('A'), one('B'))


def values(ctx, env, head, off=False):
    """commands that hold one value, in a section or at top level"""
    sec = ctx.bool('section')

    def one(side):
        out = [L(ctx.str(side + '.other', 1, NAME))]
        has = 1 + ctx.choice(side + '.has', 2) if off else \
            ctx.choice(side + '.has', 2)
        if has:
            out.insert(ctx.choice(side + '.at', 2), L(
                head + ctx.str(side + '.value', 1, NAME) if has == 1 else
                'no ' + head.strip()))
        return [L('interface x', False, out)] if sec else out
    a, b = one('A'), one('B')
    run(ctx, a, b, shown=head.strip())
    if head in ("description ", "password "):
        in_place(ctx, a, b, head)


OVERWRITABLE = ["description ", "ip address ", "ipv6 address ", "password "]


def in_place(ctx, a, b, head):
    """a command that can be overwritten is changed by one command"""
    from ncdiff.runningconfig import RunningConfigDiff
    d = RunningConfigDiff(running1=text(a), running2=text(b))
    if not all(any(raw(x.text).startswith(head) for y in c
                   for x in y.kids + [y]) for c in (a, b)):
        return
    for cli in (d.cli, d.cli_reverse):
        ctx.check(not any('no ' + head in raw(cmd) + ' '
                          for top, sub in parse_cli(cli)
                          for cmd, rest in sub + [(top, [])]),
                  'a negative command for one that can be overwritten')


def inner(ctx, env):
    """words of commands that can be overwritten, later in a line"""
    head = ctx.pick('head', OVERWRITABLE + ['username x privilege 1 password ',
                                            'transport input ', 'client '])

    def one(side):
        out = []
        for i in range(ctx.choice(side + '.#', 3)):
            t = ctx.str('%s.a%d' % (side, i), 1, NAME) + ' ' + head + \
                ctx.str('%s.b%d' % (side, i), 1, NAME)
            for x in out:
                ctx.assume(t != x.text)
            out.append(L(t))
        return [L('interface x', False, out)]
    run(ctx, one('A'), one('B'))


def resemble(ctx, env):
    """lines that begin like special ones: "no", short negations"""
    def one(side):
        out = []
        for i in range(ctx.choice(side + '.#', 3)):
            x = ctx.str('%s.x%d' % (side, i), 1, NAME)
            y = ctx.str('%s.y%d' % (side, i), 1, NAME)
            k = ctx.choice('%s.kind %d' % (side, i), 4)
            t = ['no' + x + ' ' + y, 'ip address' + x + ' ' + y,
                 'transport input' + x + ' ' + y,
                 'description' + x + ' ' + y][k]
            for z in out:
                ctx.assume(t != z.text)
            out.append(L(t))
        return out
    a, b = one('A'), one('B')
    if ctx.bool('section'):
        a, b = [L('interface x', False, a)], [L('interface x', False, b)]
    run(ctx, a, b)


def feature(ctx, env):
    """commands whose negation is shown in the running-config"""
    f = ctx.str('f', 1, NAME)

    def one(side):
        out = [L(('no feature ' if ctx.bool(side + '.off') else 'feature ') +
                 f)]
        if ctx.bool(side + '.has'):
            out.append(L(ctx.str(side + '.other', 1, NAME)))
        if ctx.bool(side + '.in section'):
            return [L('interface x', False, out)]
        return out
    a = one('A')
    b = one('B')
    ctx.assume(bool(a[0].kids) == bool(b[0].kids))
    run(ctx, a, b)


def addresses(ctx, env):
    """several addresses in a section: known finding C12-addresses"""
    def one(side):
        out = [L('other')]
        for i in range(ctx.choice(side + '.#', 3)):
            t = 'ipv6 address ' + ctx.str('%s.%d' % (side, i), 1, NAME)
            for x in out:
                ctx.assume(t != x.text)
            out.append(L(t))
        return [L('interface x', False, out)]
    a, b = one('A'), one('B')
    ctx.region('C12-addresses', len(a[0].kids) == 3 or len(b[0].kids) == 3)
    run(ctx, a, b)


def users(ctx, env):
    """users with passwords: a new password needs no negative command"""
    def one(side):
        out = []
        for i in range(ctx.choice(side + '.#', 3)):
            n = ctx.str('%s.name %d' % (side, i), ctx.pick(
                '%s.len %d' % (side, i), [1, 2]), NAME)
            for x in out:
                ctx.assume(n != x.name)
            x = L('username ' + n + ' privilege ' +
                  ctx.pick('%s.priv %d' % (side, i), ['1', '15']) +
                  ' password 0 ' + ctx.str('%s.pw %d' % (side, i), 1, NAME))
            x.name = n
            out.append(x)
        return out
    a, b = one('A'), one('B')
    run(ctx, a, b)


def user_head(cmd):
    """one line per user and privilege, next to other lines of the user"""
    r = raw(cmd)
    if r.startswith('username ') and ' password ' in r:
        return r[:r.index(' password ') + 10]
    return rc.head_of(r) if not r.startswith('username ') else None


def users2(ctx, env):
    """one user, with a password or not, and other lines of the user"""
    n = ctx.str('name', 1, NAME)

    def one(side):
        out = []
        if ctx.bool(side + '.password'):
            out.append(L('username ' + n + ' privilege ' +
                         ctx.pick(side + '.priv', ['1', '15']) +
                         ' password 0 ' + ctx.str(side + '.pw', 1, NAME),
                         True))
        if ctx.bool(side + '.view'):
            out.append(L('username ' + n + ' view ' +
                         ctx.str(side + '.v', 1, NAME), True))
        if ctx.bool(side + '.other'):
            out.append(L('username ' + n + ' ' +
                         ctx.str(side + '.o', 1, NAME), True))
        if len(out) > 1 and ctx.bool(side + '.swap'):
            out.reverse()
        return out
    run(ctx, one('A'), one('B'), heads=user_head)


def coexist(ctx, env):
    """short commands that stay next to longer ones"""
    short, long = ctx.pick('command', [
        ('snmp-server manager', 'snmp-server manager session-timeout '),
        ('ip multicast-routing', 'ip multicast-routing vrf '),
        ('ip dhcp relay information option',
         'ip dhcp relay information option ')])

    def one(side):
        n = ctx.choice(side + '.state', 3)
        out = [L(short)] if n else []
        if n == 2:
            out.append(L(long + ctx.str(side + '.x', 1, NAME)))
        return out
    run(ctx, one('A'), one('B'))


SCENARIOS = [
    Scenario('flat', cli, 'per side: <=3 lines, plain or orderless', hi=3,
             kinds=['plain', 'o']),
    Scenario('flat4', cli, 'per side: <=4 plain lines', 'thorough', hi=4,
             kinds=['plain']),
    Scenario('section', cli, 'per side: one section, <=2 lines in it',
             lo=1, hi=1, kinds=['sec'], sub=S),
    Scenario('mixed', cli, 'per side: <=2 lines or sections with <=1 line',
             hi=2, kinds=['plain', 'sec'], sub=dict(hi=1, kinds=['plain'])),
    Scenario('osection', cli, 'per side: <=2 orderless sections with <=1 '
             'line each', hi=2, kinds=['osec'],
             sub=dict(hi=1, kinds=['plain'])),
    Scenario('deep', cli, 'per side: section in a section, <=2 lines',
             lo=1, hi=1, kinds=['sec'], sub=dict(
                 lo=1, hi=1, kinds=['sec'], sub=S)),
    Scenario('words', words, 'per side: <=2 commands of one or two words of '
             '1 or 2 characters', hi=2),
    Scenario('signs', cli, 'per side: one section or line, <=1 line in it, '
             'words of 1 or 2 printable characters', lo=1, hi=1,
             kinds=['sec', 'plain'], lens=(1, 2), dom=rc.PRINT,
             sub=dict(hi=1, kinds=['plain'], lens=(1, 2))),
    Scenario('resemble', resemble, 'per side: <=2 lines that begin like '
             'special ones, possibly in a section'),
    Scenario('inner', inner, 'per side: <=2 lines in a section with the words '
             'of special commands after the first word'),
    Scenario('description', values, 'description next to another line, '
             'possibly in a section', head='description '),
    Scenario('password', values, 'password next to another line, possibly in '
             'a section', head='password '),
    Scenario('ip_address', values, 'ip address next to another line, possibly '
             'in a section, or "no ip address"', head='ip address ', off=True),
    Scenario('ipv6_address', values, 'ipv6 address next to another line, '
             'possibly in a section', head='ipv6 address '),
    Scenario('transport', values, 'transport input next to another line, '
             'possibly in a section', head='transport input '),
    Scenario('transport_output', values, 'transport output likewise',
             head='transport output '),
    Scenario('license', values, 'license boot level likewise',
             head='license boot level '),
    Scenario('users2', users2, 'one user, with a password or not, <=2 other '
             'lines of the user'),
    Scenario('feature', feature, 'a command and its visible negation, <=1 '
             'other line, possibly in a section'),
    Scenario('clients', cli, 'per side: <=2 client commands with <=1 line '
             'each', clients=True, hi=2, lines=1),
    Scenario('clients tail', cli, 'per side: <=1 client command with <=1 '
             'line, other lines before and after it', clients=True, hi=1,
             lines=1, tail=True),
    Scenario('clients3', cli, 'per side: <=3 client commands with <=1 line '
             'each', 'thorough', clients=True, hi=3, lines=1),
    Scenario('addresses', addresses, 'per side: <=2 ipv6 addresses in a '
             'section'),
    Scenario('users', users, 'per side: <=2 users with privilege and '
             'password'),
    Scenario('coexist', coexist, 'per side: none, the short one or both of '
             'two coexisting commands'),
]
