"""Families of symbolic configs shared by the harnesses: each shape fills one
side of a comparison with symbolic content over one part of the universe."""
from . import lib


def leafs(g, r):
    if g.b('has top'):
        t = r.add('vx:top')
        g.leaf(t, 'vx:a')
        g.leaf(t, 'vx:b')
        i = t.add('vx:in')
        g.leaf(i, 'vx:x')
        prune(t)


def deep(g, r):
    t = r.add('vx:top')
    i = t.add('vx:in')
    g.leaf(i, 'vx:x')
    d = i.add('vx:deep')
    g.leaf(d, 'vx:z')
    g.leaflist(d, 'vx:dl', 1)


def presence(g, r):
    t = r.add('vx:top')
    g.leaf(t, 'vx:a')
    if g.b('has pr'):
        p = t.add('vx:pr')
        g.leaf(p, 'vx:x')


def leaflist(g, r):
    t = r.add('vx:top')
    g.leaflist(t, 'vx:ls', 2)


def leaflist_leaf(g, r):
    t = r.add('vx:top')
    g.leaf(t, 'vx:a')
    g.leaflist(t, 'vx:ls', 1)
    g.leaflist(t, 'vx:lu', 1)


def userleaflist(g, r, hi=3):
    t = r.add('vx:top')
    g.leaflist(t, 'vx:lu', hi)


def slist(g, r):
    t = r.add('vx:top')

    def body(g, e, p):
        g.leaf(e, 'vx:v', p)
    g.list(t, 'vx:sl', 2, body)


def slist_deep(g, r):
    t = r.add('vx:top')

    def body(g, e, p):
        g.leaf(e, 'vx:v', p)
        c = e.add('vx:c')
        g.leaf(c, 'vx:w', p + 'c/')
        if not c.kids:
            e.kids.remove(c)
        g.leaf(e, 'vy:v', p)
    g.list(t, 'vx:sl', 1, body)


def ulist(g, r, hi=3, val=False):
    t = r.add('vx:top')

    def body(g, e, p):
        g.leaf(e, 'vx:v', p)
    g.list(t, 'vx:ul', hi, body if val else None)


def order(g, r, n=4, name='vx:lu', val=False):
    """A: some of n entries in order, B: some of them in any order; one of
    those that stay may change"""
    t = r.add('vx:top')
    vs = [str(i) for i in range(n)]
    if g.side == 'A':
        vs = g.ctx.subset('A.entries', vs)
    else:
        left, vs = vs, []
        while left:
            i = g.ctx.choice('B.entry%d' % len(vs), len(left) + 1)
            if i == len(left):
                break
            vs.append(left.pop(i))
    new = None
    if val and g.side == 'B' and vs:
        new = g.ctx.pick('B.changed', [None, vs[0], vs[-1]])
    for v in vs:
        e = t.add(name, v if name == 'vx:lu' else None)
        if name == 'vx:ul':
            e.add('vx:k', v)
        if v == new:
            e.add('vx:v', 'x')


def order_list(g, r):
    order(g, r, 4, 'vx:ul', False)


def order_list3(g, r):
    order(g, r, 3, 'vx:ul', True)


def order5(g, r):
    order(g, r, 5)


def ulist_two(g, r):
    """two more leafs in an entry"""
    t = r.add('vx:top')

    def body(g, e, p):
        if '[0]' in p:
            e.add('vx:v', g.s('v') if g.side == 'A' else 'x')
            e.add('vx:w', g.s('w') if g.side == 'A' else 'y')
    g.list(t, 'vx:ul', 2, body)


def ulist_val(g, r):
    ulist(g, r, 2, True)


def ulist_val1(g, r):
    t = r.add('vx:top')

    def body(g, e, p):
        if '[0]' in p:
            g.leaf(e, 'vx:v', p)
    g.list(t, 'vx:ul', 2, body)


def two_keys1(g, r):
    t = r.add('vx:top')

    def body(g, e, p):
        if '[0]' in p:
            g.leaf(e, 'vx:v', p)
    g.list(t, 'vx:s2', 1 if g.side == 'A' else 2, body)


def choice1(g, r):
    t = r.add('vx:top')
    c = g.ctx.choice(g.side + '.case', 4)
    if c == 1:
        g.leaf(t, 'vx:c1')
        g.leaf(t, 'vx:c1b')
    elif c == 2:
        g.leaf(t, 'vx:c2')
        g.leaflist(t, 'vx:c2l', 1)
    elif c == 3:
        g.leaf(t.add('vx:c3'), 'vx:x')


def nested_choice1(g, r):
    t = r.add('vx:top')
    c = g.ctx.choice(g.side + '.case', 4)
    if c == 1:
        g.leaf(t, 'vx:ob')
    elif c > 1:
        g.leaf(t, 'vx:oax')
        g.leaf(t, 'vx:i1' if c == 2 else 'vx:i2')


def modules1(g, r):
    t = r.add('vx:top')
    g.leaf(t, 'vx:a')
    g.leaf(t, 'vy:a')
    y = r.add('vy:ytop')
    g.leaf(y, 'vy:p')


def two_keys(g, r):
    t = r.add('vx:top')

    def body(g, e, p):
        if p.startswith('vx:s2[0]'):
            g.leaf(e, 'vx:v', p)
    g.list(t, 'vx:s2', 2, body)


def at(g, t, n):
    """a node at any position among the children of t"""
    t.kids.remove(n)
    t.kids.insert(g.ctx.choice('%s.position %s' % (g.side, n.s.name),
                               len(t.kids) + 1), n)


def ulist_at(g, r):
    t = r.add('vx:top')
    g.list(t, 'vx:ul', 2)
    at(g, t, t.add('vx:a', g.s('a')))


def leaflist_at(g, r):
    t = r.add('vx:top')
    g.leaflist(t, 'vx:lu', 2)
    at(g, t, t.add('vx:a', 'x'))


def key2(g, r):
    g.list(r.add('vx:top'), 'vx:s2', 1 if g.side == 'A' else 2)


def text(g, r):
    t = r.add('vx:top')
    g.leaf(t, 'vx:a')
    g.leaflist(t, 'vx:ls', 1)


def leaflist_text(g, r):
    t = r.add('vx:top')
    g.leaflist(t, 'vx:lu' if g.ctx.bool('ordered by user') else 'vx:ls', 2)


def two_keys_user(g, r, side='B'):
    t = r.add('vx:top')
    g.list(t, 'vx:u2', 1 if side == 'A' else 2)


def leafs1(g, r):
    t = r.add('vx:top')
    g.leaf(t, 'vx:a')
    g.leaf(t.add('vx:in'), 'vx:x')
    prune(t)


def slist1(g, r):
    t = r.add('vx:top')

    def body(g, e, p):
        if '[0]' in p:
            g.leaf(e, 'vx:v', p)
    g.list(t, 'vx:sl', 1 if g.side == 'A' else 2, body)


def mix(g, r):
    t = r.add('vx:top')
    g.leaf(t, 'vx:a')
    g.leaflist(t, 'vx:ls', 2)
    g.leaflist(t, 'vx:lu', 2)
    g.list(t, 'vx:ul', 2)


def nested2(g, r):
    t = r.add('vx:top')

    def body(g, e, p):
        g.list(e, 'vx:ul', 1, None, p)
        g.leaflist(e, 'vx:lu', 1, p)
    g.list(t, 'vx:nl', 2, body)


def nested(g, r):
    t = r.add('vx:top')

    def body(g, e, p):
        g.list(e, 'vx:ul', 2, None, p)
    g.list(t, 'vx:nl', 1, body)


def names(g, r):
    """the same names at two levels"""
    t = r.add('vx:top')
    o = t.add('vx:rn')
    g.leaf(o, 'vx:v', 'o')
    g.leaflist(o, 'vx:w', 1, 'o')
    i = o.add('vx:rn')
    g.leaf(i, 'vx:v', 'i')
    g.leaflist(i, 'vx:w', 1, 'i')
    prune(t)


def names1(g, r):
    t = r.add('vx:top')
    o = t.add('vx:rn')
    g.leaf(o, 'vx:v', 'o')
    i = o.add('vx:rn')
    g.leaf(i, 'vx:v', 'i')
    prune(t)


def names_list(g, r, hi=1):
    t = r.add('vx:top')
    o = t.add('vx:rn')

    def body(g, e, p):
        g.list(e, 'vx:e', hi, None, p)
    g.list(o, 'vx:e', 1 if g.side == 'A' else hi, body)


def clash(g, r):
    """names that two modules use for nodes of other kinds"""
    t = r.add('vx:top')
    g.leaflist(t, 'vx:lu', 1)
    g.leaf(t, 'vy:lu')
    g.leaf(t, 'vx:b')
    g.list(t, 'vy:b', 1)


def clash_lu(g, r):
    t = r.add('vx:top')
    g.leaflist(t, 'vx:lu', 1)
    g.leaf(t, 'vy:lu')


def clash_b(g, r):
    t = r.add('vx:top')
    g.leaf(t, 'vx:b')
    g.list(t, 'vy:b', 1)


def both_user(g, r):
    """two user ordered nodes in one parent, in any order"""
    t = r.add('vx:top')
    for name in ('vx:lu', 'vx:ul'):
        vs = '01'
        if g.b('other order ' + name):
            vs = '10'
        for v in vs:
            if v == '0' or g.side == 'B' or g.b('both ' + name):
                n = t.add(name, v if name == 'vx:lu' else None)
                if name == 'vx:ul':
                    n.add('vx:k', v)


def clash2(g, r):
    t = r.add('vx:top')
    g.leaf(t.add('vx:in'), 'vx:x')
    g.leaflist(t, 'vy:in', 2)


def clash_key(g, r):
    """a leaf with the name of the key"""
    t = r.add('vx:top')

    def body(g, e, p):
        if '[0]' in p and g.b(p + 'has vy:k'):
            v = e.add('vy:k', g.s(p + 'vy:k'))
            if g.b(p + 'in front'):
                e.kids.remove(v)
                e.kids.insert(0, v)
    g.list(t, 'vx:sl', 1 if g.side == 'A' else 2, body)


def nested_leaflist(g, r):
    t = r.add('vx:top')

    def body(g, e, p):
        g.leaflist(e, 'vx:lu', 2, p)
    g.list(t, 'vx:nl', 1, body)


def choice(g, r):
    t = r.add('vx:top')
    g.leaf(t, 'vx:a')
    c = g.ctx.choice(g.side + '.case', 4)
    if c == 1:
        g.leaf(t, 'vx:c1')
        g.leaf(t, 'vx:c1b')
    elif c == 2:
        g.leaf(t, 'vx:c2')
        g.leaflist(t, 'vx:c2l', 1)
    elif c == 3:
        g.leaf(t.add('vx:c3'), 'vx:x')


def nested_choice(g, r):
    t = r.add('vx:top')
    g.leaf(t, 'vx:a')
    c = g.ctx.choice(g.side + '.case', 4)
    if c == 1:
        g.leaf(t, 'vx:ob')
    elif c > 1:
        g.leaf(t, 'vx:oax')
        g.leaf(t, 'vx:i1' if c == 2 else 'vx:i2')


def toplevel(g, r):
    g.leaf(r, 'vx:tl')
    g.leaflist(r, 'vx:tll', 2)


def toplevel_list(g, r):
    g.leaf(r, 'vx:tl')
    g.list(r, 'vx:tul', 2)


def topchoice(g, r):
    """a choice at the top level"""
    g.leaf(r, 'vx:tl')
    if g.b('case t1'):
        g.leaf(r, 'vx:t1')
    else:
        g.leaf(r, 'vx:t2')
        g.leaf(r.add('vx:t3'), 'vx:x')
        prune(r)


def modules(g, r):
    t = r.add('vx:top')
    g.leaf(t, 'vx:a')
    g.leaf(t, 'vy:a')
    y = r.add('vy:ytop')
    g.leaf(y, 'vy:p')
    g.list(y, 'vy:e', 1)


def empty_leaf(g, r):
    t = r.add('vx:top')
    if g.b('has em'):
        t.add('vx:em', '')
    # a string leaf whose value is the empty string
    if g.b('has a'):
        if g.b('empty a'):
            t.add('vx:a', '')
        else:
            t.add('vx:a', g.s('a'))


# an identity and the ways to write it: (text, extra namespace declarations)
IDS = {
    ('urn:vx', 'id-a'): [('id-a', {})],
    ('urn:vy', 'id-a'): [('vy:id-a', {'vy': 'urn:vy'}),
                         ('p:id-a', {'p': 'urn:vy'})],
    ('urn:vy', 'id-b'): [('vy:id-b', {'vy': 'urn:vy'}),
                         ('vx:id-b', {'vx': 'urn:vy'})],
}
IDVALS = sorted(IDS)


def ident(g, n, name, where, vals=IDVALS):
    """add an identityref node; the prefix may be declared on the node or on
    an ancestor (n's top container)"""
    m = g.ctx.pick('%s.id %s' % (g.side, where), vals)
    text, ns = g.ctx.pick('%s.as %s' % (g.side, where), IDS[m])
    k = n.add(name, text)
    if ns:
        k.ns = dict(ns)
    return k, m


def hoist(g, r):
    """move namespace declarations to the top container if they agree"""
    if not g.ctx.bool(g.side + '.hoist'):
        return
    ns = {None: 'urn:vx'}

    def walk(n):
        for k in n.kids:
            if k.ns:
                for p, u in k.ns.items():
                    if ns.get(p, u) != u:
                        g.ctx.assume(False)
                    ns[p] = u
                k.ns = None
            walk(k)
    walk(r)
    r.kids[0].ns = ns


def id_leaf(g, r):
    t = r.add('vx:top')
    g.leaf(t, 'vx:a')
    if g.b('has idr'):
        ident(g, t, 'vx:idr', 'idr')



def id_leaf1(g, r, name='vx:idr'):
    t = r.add('vx:top')
    if g.b('has idr'):
        ident(g, t, name, 'idr')


def id_leaflist(g, r, name='vx:idl', hi=2):
    t = r.add('vx:top')
    seen = []
    for i in range(g.count(name, hi)):
        k, m = ident(g, t, name, '%s[%d]' % (name, i))
        if m in seen:
            g.ctx.assume(False)
        seen.append(m)



def id_user_leaflist(g, r):
    id_leaflist(g, r, 'vx:idu')


def id_user_leaflist1(g, r):
    id_leaflist(g, r, 'vx:idu', 1)


def id_key(g, r, name='vx:idk', hi=2):
    t = r.add('vx:top')
    seen = []
    for i in range(g.count(name, hi)):
        e = t.add(name)
        k, m = ident(g, e, 'vx:k', '%s[%d]' % (name, i))
        if m in seen:
            g.ctx.assume(False)
        seen.append(m)
        g.leaf(e, 'vx:v', '%s[%d]' % (name, i))



def id_user_key(g, r):
    id_key(g, r, 'vx:idku')


def prune(n):
    for k in list(n.kids):
        prune(k)
        if k.s.np and not k.kids:
            n.kids.remove(k)
