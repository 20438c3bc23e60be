"""Symbolic running-configs, an oracle for them and a device that executes
CLIs."""
from symex.ctx import NAME, Domain
from symex.engine import s_and, s_or, s_not
from symex.symstr import raw, SymStr
from symex import engine

MODULES = ['ncdiff.runningconfig']
ASSUMPTIONS = [
    'Running-configs are trees of lines; every line is one of the listed '
    'command heads followed by symbolic words over [a-z0-9], in some '
    'scenarios over printable ASCII (a line that starts with ! or % is a '
    'comment); lines of one section are distinct unless the scenario says '
    'otherwise.',
    'Which commands are orderless is taken from the table in the original '
    'sources (the head of a command and the depth), copied into the harness.',
    'A line that follows a client command without lines of its own is one of '
    'that client (devices show lines of clients without indentation, so that '
    'the text does not tell).']

PRINT = Domain('printable ASCII', 33, 126)
START = Domain('printable ASCII except ! and %', 33, 126, exclude='!%')

# heads: (text, orderless)
TOP = {'plain': ('', False), 'o': ('ntp server ', True),
       'u': ('username ', True), 'sec': ('interface ', False),
       'osec': ('router ', True)}
SUB = {'plain': ('', False), 'o': ('neighbor ', True),
       'sec': ('vrf ', False)}
HEADS = [TOP, SUB, SUB]


class L(object):
    def __init__(self, text, orderless=False, kids=None):
        self.text, self.orderless = text, orderless
        self.kids = kids if kids is not None else []

    def copy(self):
        return L(self.text, self.orderless, [k.copy() for k in self.kids])


def teq(a, b):
    """text equality, bool or symbolic"""
    if isinstance(a, SymStr):
        return a == b
    if isinstance(b, SymStr):
        return b == a
    return a == b


def level(ctx, side, hi, kinds, depth=0, sub=None, lens=(1,), lo=0, path='',
          dup=False, dom=NAME):
    """up to hi lines; sub(i): arguments of the level below line i"""
    out = []
    n = lo + ctx.choice('%s.#%s' % (side, path), hi - lo + 1)
    for i in range(n):
        p = '%s%d' % (path, i)
        kind = ctx.pick('%s.kind %s' % (side, p), kinds)
        head, o = HEADS[depth][kind]
        ln = ctx.pick('%s.len %s' % (side, p), lens)
        ln_ = L(head + word(ctx, '%s.line %s' % (side, p), ln,
                            NAME if ln == 1 and head else dom), o)
        if kind in ('sec', 'osec') and sub:
            ln_.kids = level(ctx, side, depth=depth + 1, path=p + '/',
                             dom=dom, **sub)
        for x in out:
            if not (dup and kind == 'plain'):
                ctx.assume(s_not(teq(x.text, ln_.text)))
        out.append(ln_)
    return out


def word(ctx, name, n, dom):
    if dom is not PRINT:
        return ctx.str(name, n, dom)
    w = ctx.str(name, 1, START)
    return w + ctx.str(name + ' rest', n - 1, dom) if n > 1 else w


def render(lines, width=1, depth=0):
    out = []
    for x in lines:
        out.append(' ' * (width * depth) + x.text)
        out += render(x.kids, width, depth + 1)
    return out


def text(lines, width=1):
    return wrap('\n'.join(render(lines, width)) + '\n')


def pair(ctx, kw):
    """two configs and their texts"""
    kw = dict(kw)
    if kw.pop('clients', None):
        a, b = clients(ctx, 'A', **kw), clients(ctx, 'B', **kw)
        return a, b, client_text(a), client_text(b)
    a, b = level(ctx, 'A', **kw), level(ctx, 'B', **kw)
    return a, b, text(a), text(b)


def clients(ctx, side, hi, lines, tail=False):
    """a section with client commands, each with up to some lines; tail: also
    with another line before and after them (the one after them belongs to
    the section because lines of clients are indented)"""
    out = []
    for i in range(ctx.choice('%s.#clients' % side, hi + 1)):
        c = L('client ' + ctx.str('%s.client %d' % (side, i), 1, NAME))
        for x in out:
            ctx.assume(c.text != x.text)
        for j in range(ctx.choice('%s.#%d' % (side, i), lines + 1)):
            k = L(ctx.str('%s.line %d %d' % (side, i, j), 1, NAME))
            for x in c.kids:
                ctx.assume(k.text != x.text)
            c.kids.append(k)
        out.append(c)
    if tail:
        if ctx.bool(side + '.tail'):
            ctx.assume(bool(out and out[-1].kids))
            out.append(L(ctx.str(side + '.tail', 1, NAME)))
            out[-1].other = True
        if ctx.bool(side + '.head'):
            out.insert(0, L(ctx.str(side + '.head', 1, NAME)))
            out[0].other = True
            if getattr(out[-1], 'other', False) and len(out) > 1:
                ctx.assume(out[0].text != out[-1].text)
    out = [L('aaa server radius proxy', False, out)]
    if ctx.bool(side + '.more'):
        out.append(L('z'))
    return out


def client_text(lines):
    """clients as devices show them: all but the first look like children of
    the first one, and lines of a client are not indented below it"""
    out = []
    for x in lines:
        out.append(x.text)
        first = True
        for c in x.kids:
            if getattr(c, 'other', False):
                out.append(' ' + c.text)
                continue
            out.append((' ' if first else '  ') + c.text)
            out += ['  ' + k.text for k in c.kids] + ['  !']
            first = False
    return wrap('\n'.join(out) + '\n')


def equal(a, b):
    """same lines in the same order, where neighbouring orderless lines may
    be permuted"""
    if len(a) != len(b):
        return False
    fs = []
    ia = 0
    while ia < len(a):
        if a[ia].orderless != b[ia].orderless:
            return False
        if not a[ia].orderless:
            fs.append(same(a[ia], b[ia]))
            ia += 1
            continue
        j = ia
        while j < len(a) and a[j].orderless:
            j += 1
        k = ia
        while k < len(b) and b[k].orderless:
            k += 1
        if j != k:
            return False
        for x in a[ia:j]:
            fs.append(s_or([same(x, y) for y in b[ia:j]]))
        ia = j
    return s_and(fs)


def same(x, y):
    return s_and([teq(x.text, y.text), equal(x.kids, y.kids)])


def same_set(a, b):
    """same lines in every section, in any order"""
    if len(a) != len(b):
        return False
    return s_and([s_or([s_and([teq(x.text, y.text), same_set(x.kids, y.kids)])
                        for y in b]) for x in a])


def find(lines, key):
    for x in lines:
        if teq(x.text, key):
            return x
    return None


def strip(ctx, lines, diff, mark, what):
    """the lines without those that the diff marks"""
    out = [x.copy() for x in lines]
    for k, v, i in diff or []:
        ctx.check(i in ('+', '-', ''), 'mark of a diff item')
        if i == mark:
            x = find(out, k)
            ctx.check(x is not None, 'a line marked %s is not in %s' %
                      (mark, what))
            if x is not None:
                if v is not None:
                    ctx.check(section(x.kids, v), 'content of a section '
                              'marked %s' % mark)
                else:
                    ctx.check(not x.kids, 'content of a line marked ' + mark)
                out.remove(x)
        elif i == '':
            x = find(out, k)
            ctx.check(x is not None, 'an unmarked line is not in ' + what)
            if x is not None and v is not None:
                x.kids = strip(ctx, x.kids, v, mark, what)
    return out


def section(kids, v):
    if len(kids) != len(v):
        return False
    return s_and([s_or([s_and([teq(x.text, k),
                               section(x.kids, w) if w is not None
                               else not x.kids]) for k, w, i in v])
                  for x in kids])


def shown(diff, depth=0, mark=None):
    """the rendering of a diff: mark, indentation, line"""
    out = []
    for k, v, i in diff or []:
        m = i if mark in (None, '') else mark
        out.append((m or ' ') + ' ' + '  ' * depth + k)
        if v is not None:
            out += shown(v, depth + 1, m)
    return out


# -- device ------------------------------------------------------------------
def parse_cli(s):
    """CLI text -> [(command, [..])] by indentation"""
    root = []
    stack = [(-1, root)]
    for line in raw(s).split('\n'):
        if not line.strip() or line.strip() == '!':
            continue
        ind = len(line) - len(line.lstrip(' '))
        while stack[-1][0] >= ind:
            stack.pop()
        node = (line.strip(), [])
        stack[-1][1].append(node)
        stack.append((ind, node[1]))
    return root


def wrap(s):
    return SymStr(s) if engine.cur is not None else s


def word_prefix(short, long):
    """long continues short with more words"""
    short, long = raw(short), raw(long)
    if len(long) <= len(short) or long[len(short)] != ' ':
        return False
    return teq(wrap(long[:len(short)]), wrap(short))


ONE_VALUE = ['description ', 'ip address ', 'password ']


COEXIST = ['snmp-server manager', 'ip multicast-routing',
           'ip dhcp relay information option']


# commands whose negation is rejected with more words
SHORT = ['license boot level ', 'transport input ', 'transport output ',
         'ip address ', 'ipv6 address ']


def head_of(cmd):
    r = raw(cmd)
    for h in ONE_VALUE:
        if r.startswith(h):
            return h
    if r.startswith('username '):
        # one line per user
        return r[:r.index(' ', len('username ')) + 1]
    return None


def begins(t, h):
    t = raw(t)
    return len(t) >= len(h) and teq(wrap(t[:len(h)]), wrap(h))


def execute(lines, cmds, heads=None, shown=None):
    """what a device does with a list of commands in one mode; shown: a
    command without its value is rejected, and its negation is shown in the
    running-config"""
    for cmd, sub in cmds:
        r = raw(cmd)
        if r == shown:
            continue
        if r.startswith('no '):
            t = wrap(r[3:])
            if any(r[3:].startswith(x) for x in SHORT):
                continue
            n = len(lines)
            lines[:] = [x for x in lines
                        if not (teq(x.text, t) or word_prefix(t, x.text))]
            if len(lines) == n and raw(t).startswith('feature '):
                lines[:] = [x for x in lines if not teq(x.text, wrap(r))]
            if raw(t).startswith('feature '):
                # both states are shown in the running-config
                lines.append(L(wrap(r)))
            elif r == 'no ip address' and shown == 'ip address':
                lines[:] = [x for x in lines if raw(x.text) != r]
                lines.append(L(wrap(r)))
            continue
        t = wrap(r)
        x = find(lines, t)
        if x is None:
            h = (heads or head_of)(r)
            lines[:] = [y for y in lines if not (
                (raw(y.text) not in COEXIST and word_prefix(y.text, t)) or
                (h is not None and begins(y.text, h)))]
            lines[:] = [y for y in lines if not (
                teq(y.text, wrap('no ' + r)) or
                h == 'ip address ' and raw(y.text) == 'no ip address')]
            x = L(t)
            lines.append(x)
        execute(x.kids, sub, heads, shown)
    return lines


def no_prefixes(ctx, lines):
    """assume: no line of a section continues another one"""
    for x in lines:
        for y in lines:
            if x is not y:
                ctx.assume(s_not(word_prefix(x.text, y.text)))
        no_prefixes(ctx, x.kids)


def setup():
    return None
