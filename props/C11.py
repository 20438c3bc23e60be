"""A running-config diff marks exactly what has to go and what has to come."""
from symex.runner import Scenario
from . import rc
from .rc import MODULES, setup, level, text, equal, strip, shown, teq
from .C10 import S

ASSUMPTIONS = rc.ASSUMPTIONS


def patch(ctx, env, **kw):
    from ncdiff.runningconfig import RunningConfigDiff
    a, b, ta, tb = rc.pair(ctx, kw)
    d = RunningConfigDiff(running1=ta, running2=tb)
    if not ctx.symbolic:
        ctx.note('A:\n%s\nB:\n%s\ndiff:\n%s\nreverse: %s' % (
            ta, tb, d, d.diff_reverse))
    for name, diff, x, y in (('diff', d.diff, a, b),
                             ('diff_reverse', d.diff_reverse, b, a)):
        s = strip(ctx, x, diff, '-', 'the old config')
        t = strip(ctx, y, diff, '+', 'the new config')
        ctx.check(equal(s, t), name + ': what it does not mark differs')
        only(ctx, diff, x, y)
        references(ctx, diff, x, y)
    want = shown(d.diff)
    got = str(d).split('\n') if d else ['']
    ctx.check(got[-1] == '' and len(got) == len(want) + 1,
              'number of lines shown')
    for g, w in zip(got, want):
        ctx.check(teq(rc.wrap(g), rc.wrap(w)), 'a line is shown otherwise')
    e = RunningConfigDiff(running1=ta, running2=tb)
    ctx.check((d == e) is True and str(d) == str(e), 'not deterministic')


def only(ctx, diff, x, y):
    """a mark on both sides is a move: such a line is in both configs, and a
    line that is marked once is in one config only"""
    for k, v, i in diff or []:
        if i == '':
            p, q = rc.find(x, k), rc.find(y, k)
            if v is not None and p is not None and q is not None:
                only(ctx, v, p.kids, q.kids)
            continue
        n = [j for l, w, j in diff if j != i and teq(l, k)]
        other = rc.find(y if i == '-' else x, k)
        ctx.check((other is not None) == bool(n),
                  'a line is marked although it did not change, or a moved '
                  'line is marked once')


def changed(v):
    return any(i != '' or w is not None and changed(w) for k, w, i in v)


def references(ctx, diff, x, y):
    """an unchanged line is shown where a line moves across it, and only
    there"""
    diff = diff or []
    marked = [(n, k, i) for n, (k, v, i) in enumerate(diff) if i != '']
    moves = [(n, m, k) for n, k, i in marked for m, l, j in marked
             if n < m and i != j and teq(k, l)]
    for n, (k, v, i) in enumerate(diff):
        if i != '':
            continue
        if v is not None and changed(v):
            references(ctx, v, rc.find(x, k).kids, rc.find(y, k).kids)
            continue
        ctx.check(any(a < n < b for a, b, l in moves), 'an unchanged line is '
                  'shown and no line moves across it')
    for a, b, k in moves:
        p, q = index(x, k), index(y, k)
        if x[p].orderless:
            continue
        for r, u in enumerate(x):
            t = index(y, u.text)
            if u.orderless or t is None or r == p or (r < p) == (t < q) or \
                    any(teq(u.text, l) for n, l, i in marked):
                continue
            ctx.check(any(teq(u.text, l) for l, v, i in diff[a + 1:b]),
                      'a line that another one moves across is not shown')


def index(lines, key):
    for n, u in enumerate(lines):
        if teq(u.text, key):
            return n
    return None


SCENARIOS = [
    Scenario('flat', patch, 'per side: <=3 lines, plain or orderless', hi=3,
             kinds=['plain', 'o']),
    Scenario('flat4', patch, 'per side: <=4 plain lines', 'thorough', hi=4,
             kinds=['plain']),
    Scenario('words', patch, 'per side: <=2 lines, words of 1 or 2 printable '
             'characters', hi=2, kinds=['plain', 'o'], lens=(1, 2),
             dom=rc.PRINT),
    Scenario('signs', patch, 'per side: one section, <=1 line in it, words of '
             '1 or 2 printable characters', lo=1, hi=1, kinds=['sec', 'plain'],
             lens=(1, 2), dom=rc.PRINT,
             sub=dict(hi=1, kinds=['plain'], lens=(1, 2))),
    Scenario('section', patch, 'per side: one section, <=2 lines in it',
             lo=1, hi=1, kinds=['sec'], sub=S),
    Scenario('section3', patch, 'per side: one section, <=3 lines in it',
             'thorough', lo=1, hi=1, kinds=['sec'],
             sub=dict(hi=3, kinds=['plain', 'o'])),
    Scenario('osection', patch, 'per side: <=2 orderless sections with <=1 '
             'line each', hi=2, kinds=['osec'],
             sub=dict(hi=1, kinds=['plain'])),
    Scenario('mixed', patch, 'per side: <=2 lines or sections with <=1 line',
             hi=2, kinds=['plain', 'sec'], sub=dict(hi=1, kinds=['plain'])),
    Scenario('deep', patch, 'per side: section in a section, <=2 lines',
             lo=1, hi=1, kinds=['sec'], sub=dict(
                 lo=1, hi=1, kinds=['sec'], sub=S)),
    Scenario('clients', patch, 'per side: <=2 client commands with <=1 line '
             'each', clients=True, hi=2, lines=1),
    Scenario('clients tail', patch, 'per side: <=1 client command with <=1 '
             'line, other lines before and after it', clients=True, hi=1,
             lines=1, tail=True),
    Scenario('clients3', patch, 'per side: <=3 client commands with <=1 line '
             'each', 'thorough', clients=True, hi=3, lines=1),
]
