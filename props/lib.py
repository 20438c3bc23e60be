"""Independent oracle for the verification universe (/verif/yang): a
hand-written schema, data trees, semantic equality, normalisation and an
RFC 6241 / RFC 7950 edit-config server.  Nothing here uses ncdiff."""
from lxml import etree
from symex import engine
from symex.engine import s_and, s_or, s_not
from symex.symstr import raw, SymStr
from symex.ctx import ALNUM

NC = 'urn:ietf:params:xml:ns:netconf:base:1.0'
YANG = 'urn:ietf:params:xml:ns:yang:1'
NS = {'vx': 'urn:vx', 'vy': 'urn:vy', 'nc': NC, 'yang': YANG}
CONFIG = '{%s}config' % NC


class S(object):
    """schema node"""

    def __init__(self, name, kind, *kids, **kw):
        self.mod, self.name = name.split(':')
        self.tag = '{%s}%s' % (NS[self.mod], self.name)
        self.kind = kind
        self.kids = {}
        self.parent = None
        self.key = kw.get('key', ())
        self.user = kw.get('user', False)
        self.default = kw.get('default')
        self.presence = kw.get('presence', False)
        self.type = kw.get('type', 'string')
        self.case = kw.get('case', {})
        self.config = kw.get('config', True)
        self.status = kw.get('status', 'current')
        for k in kids:
            self.kids[k.tag] = k
            k.parent = self
        self.keytags = ['{%s}%s' % (NS[self.mod], k) for k in self.key]

    @property
    def np(self):
        return self.kind == 'container' and not self.presence

    def find(self, name):
        m, n = name.split(':')
        return self.kids['{%s}%s' % (NS[m], n)]


def leaf(name, **kw):
    return S(name, 'leaf', **kw)


def ll(name, **kw):
    return S(name, 'leaf-list', **kw)


def con(name, *kids, **kw):
    return S(name, 'container', *kids, **kw)


def lst(name, key, *kids, **kw):
    return S(name, 'list', *kids, key=key.split(), **kw)


def build():
    top = con(
        'vx:top',
        leaf('vx:a'), leaf('vx:b', default='0'),
        con('vx:in', leaf('vx:x'), leaf('vx:y', default='7'),
            con('vx:deep', leaf('vx:z'), ll('vx:dl'))),
        con('vx:pr', leaf('vx:x'), leaf('vx:ps', config=False),
            presence=True),
        ll('vx:ls'), ll('vx:lu', user=True),
        lst('vx:sl', 'k', leaf('vx:k'), leaf('vx:v'),
            con('vx:c', leaf('vx:w')), leaf('vy:v'), leaf('vy:k')),
        lst('vx:ul', 'k', leaf('vx:k'), leaf('vx:v'), leaf('vx:w'),
            user=True),
        lst('vx:s2', 'k2 k1', leaf('vx:k1'), leaf('vx:k2'), leaf('vx:v')),
        lst('vx:u2', 'k2 k1', leaf('vx:k1'), leaf('vx:k2'), leaf('vx:v'),
            user=True),
        lst('vx:nl', 'k', leaf('vx:k'),
            lst('vx:ul', 'k', leaf('vx:k'), leaf('vx:v'), user=True),
            ll('vx:lu', user=True)),
        leaf('vx:c1', case={'ch': 'one'}), leaf('vx:c1b', case={'ch': 'one'}),
        leaf('vx:c2', case={'ch': 'two'}), ll('vx:c2l', case={'ch': 'two'}),
        con('vx:c3', leaf('vx:x'), case={'ch': 'c3'}),
        leaf('vx:oax', case={'oc': 'oa'}),
        leaf('vx:i1', case={'oc': 'oa', 'ic': 'i1'}),
        leaf('vx:i2', case={'oc': 'oa', 'ic': 'i2'}),
        leaf('vx:ob', case={'oc': 'ob'}),
        leaf('vx:em', type='empty'),
        leaf('vx:idr', type='identityref'), ll('vx:idl', type='identityref'),
        ll('vx:idu', type='identityref', user=True),
        lst('vx:idk', 'k', leaf('vx:k', type='identityref'), leaf('vx:v')),
        lst('vx:idku', 'k', leaf('vx:k', type='identityref'), leaf('vx:v'),
            user=True),
        leaf('vx:iid', type='instance-identifier'),
        leaf('vx:tid', type='identityref'), ll('vx:tidl', type='identityref'),
        lst('vx:tidk', 'k', leaf('vx:k', type='identityref'),
            con('vx:c', leaf('vx:k', type='identityref'))),
        leaf('vx:tiid', type='instance-identifier'),
        leaf('vx:do.t'),
        ll('vx:ld', default=['0', '1']),
        ll('vx:lud', default=['0', '1'], user=True),
        leaf('vx:old', status='obsolete'), leaf('vx:dep', status='deprecated'),
        con('vx:oldc', leaf('vx:x'), status='obsolete'),
        con('vx:rn', leaf('vx:v'), ll('vx:w'),
            con('vx:rn', leaf('vx:v'), ll('vx:w')),
            lst('vx:e', 'v', leaf('vx:v'),
                lst('vx:e', 'v', leaf('vx:v'), leaf('vx:w'), user=True))),
        leaf('vx:ro', config=False),
        con('vx:st', leaf('vx:s', config=False), config=False),
        lst('vx:rl', 'k', leaf('vx:k'), leaf('vx:v'),
            leaf('vx:r', config=False),
            con('vx:stat', leaf('vx:n', config=False), config=False)),
        leaf('vy:a'), leaf('vy:ya'), leaf('vy:lu'),
        lst('vy:b', 'k', leaf('vy:k'), user=True), ll('vy:in'),
        con('vy:yc', leaf('vy:idr', type='identityref')),
    )
    return S('nc:config', 'container', top, leaf('vx:tl'),
             leaf('vx:t1', case={'tc': 't1'}), leaf('vx:t2', case={'tc': 't2c'}),
             con('vx:t3', leaf('vx:x'), case={'tc': 't2c'}),
             ll('vx:tll', user=True),
             lst('vx:tul', 'k', leaf('vx:k'), leaf('vx:v'), user=True),
             con('vx:state-root', leaf('vx:n', config=False), config=False),
             con('vy:ytop', leaf('vy:p'),
                 lst('vy:e', 'k', leaf('vy:k'), leaf('vy:v')),
                 leaf('vy:idr', type='identityref'),
                 leaf('vy:iid', type='instance-identifier'),
                 leaf('vy:tiid', type='instance-identifier'),
                 leaf('vy:tlid', type='instance-identifier'),
                 ll('vy:iidl', type='instance-identifier')))


SCHEMA = build()


class N(object):
    """data node.  val: text of a leaf or leaf-list ('' when absent);
    op/ins/pt: edit-config attributes"""
    __slots__ = ('s', 'val', 'kids', 'op', 'ins', 'pt', 'ns')

    def __init__(self, s, val=None, kids=None):
        self.s = s
        self.val = val
        self.kids = kids if kids is not None else []
        self.op = self.ins = self.pt = None
        self.ns = None

    def add(self, name, val=None, *kids):
        n = N(self.s.find(name), val, list(kids))
        self.kids.append(n)
        return n

    def copy(self):
        n = N(self.s, self.val, [k.copy() for k in self.kids])
        n.op, n.ins, n.pt, n.ns = self.op, self.ins, self.pt, self.ns
        return n

    def of(self, tag):
        return [k for k in self.kids if k.s.tag == tag]

    def get(self, name):
        m, n = name.split(':')
        for k in self.kids:
            if k.s.mod == m and k.s.name == n:
                return k
        return None

    def __repr__(self):
        return dump(self)


def dump(n, ind=0):
    a = ''
    for k in ('op', 'ins', 'pt'):
        if getattr(n, k) is not None:
            a += ' %s=%s' % (k, getattr(n, k))
    out = '%s%s%s%s\n' % ('  ' * ind, n.s.name, a,
                          '' if n.val is None else ' = %s' % n.val)
    return out + ''.join(dump(k, ind + 1) for k in n.kids)


def root():
    return N(SCHEMA)


class BadTree(Exception):
    pass


# -- values ------------------------------------------------------------------
def _ident(text, nsmap, ctxmod):
    """identityref value as (namespace, name)"""
    t = raw(text)
    if ':' in t:
        p, n = t.split(':', 1)
        return (nsmap.get(p), n)
    return (nsmap.get(None), t)


def _iid(text, nsmap):
    """instance-identifier: prefixes replaced by namespaces, outside quotes"""
    t = raw(text)
    out, q, word = '', None, ''
    for ch in t + '\0':
        if q:
            f = engine.ceq(ch, q)
            if f is True or (f is not False and bool(engine.SymBool(f))):
                q = None
                ch = '\1'
            out += ch
            continue
        if ch.isalnum() or ch in '-_.' or ch >= engine.CH_FIRST:
            word += ch
            continue
        if ch == ':':
            out += '{%s}' % nsmap.get(word)
            word = ''
            continue
        out += word
        word = ''
        if ch in '"\'':
            q = ch
            ch = '\1'
        if ch != '\0':
            out += ch
    return out


def from_etree(e, s=None, edit=False):
    """lxml element -> N.  Raises BadTree on anything not in the schema."""
    if s is None:
        if e.tag != CONFIG:
            raise BadTree('root is %s' % e.tag)
        s = SCHEMA
    n = N(s)
    n.ns = dict(e.nsmap)
    if s.kind in ('leaf', 'leaf-list'):
        if len(e):
            raise BadTree('children under ' + s.tag)
        t = e.text
        if t is None:
            n.val = ''
        elif s.type == 'identityref':
            n.val = _ident(t, e.nsmap, s.mod)
        elif s.type == 'instance-identifier':
            n.val = _iid(t, e.nsmap)
        else:
            n.val = t
    else:
        if e.text is not None and raw(e.text).strip():
            raise BadTree('text in ' + s.tag)
    for name in e.attrib:
        v = e.get(name)
        if not edit:
            raise BadTree('attribute %s on %s' % (name, s.tag))
        if name == '{%s}operation' % NC:
            n.op = str(raw(v))
        elif name == '{%s}insert' % YANG:
            n.ins = str(raw(v))
        elif name in ('{%s}value' % YANG, '{%s}key' % YANG):
            n.pt = (name.split('}')[1], v)
        elif name == 'operation':
            pass        # no meaning for a NETCONF server
        else:
            raise BadTree('attribute %s' % name)
    for c in e:
        if not isinstance(c.tag, str):
            raise BadTree('comment or PI in tree')
        cs = s.kids.get(c.tag)
        if cs is None:
            raise BadTree('unknown node %s' % c.tag)
        if c.tail is not None and raw(c.tail).strip():
            raise BadTree('tail on ' + c.tag)
        n.kids.append(from_etree(c, cs, edit))
    return n


PREF = {'vx': 'vx', 'vy': 'vy'}


def to_etree(n, prefixed=False, nsmaps=None):
    """N -> element.  Default namespace per module unless prefixed."""
    r = etree.Element(CONFIG, nsmap={'nc': NC})
    for k in n.kids:
        _to(r, k, None, prefixed)
    return r


def _to(parent, n, mod, prefixed):
    m = n.s.mod
    nsmap = n.ns
    if nsmap is None:
        if prefixed:
            nsmap = {p: NS[p] for p in ('vx', 'vy')}
        elif m != mod:
            nsmap = {None: NS[m]}
    e = etree.SubElement(parent, n.s.tag, nsmap=nsmap)
    if n.val is not None and raw(n.val) != '':
        e.text = n.val
    if n.op is not None:
        e.set('{%s}operation' % NC, n.op)
    if n.ins is not None:
        e.set('{%s}insert' % YANG, n.ins)
    if n.pt is not None:
        e.set('{%s}%s' % (YANG, n.pt[0]), n.pt[1])
    for k in n.kids:
        _to(e, k, m, prefixed)
    return e


# -- equality ----------------------------------------------------------------
def val_eq(a, b):
    if isinstance(a, tuple) or isinstance(b, tuple):
        return a == b
    if a is None or b is None:
        return a is b
    return engine.seq_eq(raw(a), raw(b))


def keyvals(n):
    out = []
    for t in n.s.keytags:
        ks = n.of(t)
        if len(ks) != 1:
            raise BadTree('%d keys %s' % (len(ks), t))
        out.append(ks[0].val)
    return out


def same_entry(a, b):
    """same list or leaf-list entry?"""
    if a.s is not b.s:
        return False
    if a.s.kind == 'leaf-list':
        return val_eq(a.val, b.val)
    if a.s.kind == 'list':
        return s_and([val_eq(x, y) for x, y in zip(keyvals(a), keyvals(b))])
    return True


def effective(n, np_empty=True):
    """children that carry information: an empty non-presence container is
    the same as no container"""
    return [k for k in n.kids if not (np_empty and empty_np(k))]


def empty_np(n):
    return n.s.np and all(empty_np(k) for k in n.kids)


def tree_eq(a, b):
    """Semantic equality of two data trees as a formula."""
    if a.s is not b.s:
        return False
    if a.s.kind in ('leaf', 'leaf-list'):
        return val_eq(a.val, b.val)
    ka, kb = effective(a), effective(b)
    if len(ka) != len(kb):
        return False
    tags = []
    for k in ka + kb:
        if k.s not in tags:
            tags.append(k.s)
    out = []
    for s in tags:
        la = [k for k in ka if k.s is s]
        lb = [k for k in kb if k.s is s]
        if len(la) != len(lb):
            return False
        if s.kind in ('leaf', 'container') or s.user:
            out += [tree_eq(x, y) for x, y in zip(la, lb)]
        elif len(la) == 1:
            out.append(tree_eq(la[0], lb[0]))
        else:
            # system ordered: a bijection; entries of a well formed tree are
            # pairwise different, so inclusion both ways is enough
            m = [[tree_eq(x, y) for y in lb] for x in la]
            out += [s_or(r) for r in m]
            out += [s_or([m[i][j] for i in range(len(la))])
                    for j in range(len(lb))]
    return s_and(out)


def distinct(n):
    """list entries pairwise different, leaves and containers single."""
    out = []
    for i, a in enumerate(n.kids):
        for b in n.kids[:i]:
            if a.s is b.s:
                if a.s.kind in ('leaf', 'container'):
                    return False
                out.append(s_not(same_entry(a, b)))
        if a.kids:
            out.append(distinct(a))
    return s_and(out)


def tree_le(a, b):
    """Everything in a is in b; entries of user ordered lists in a appear in
    b in the same relative order."""
    if a.s is not b.s:
        return False
    if a.s.kind in ('leaf', 'leaf-list'):
        return val_eq(a.val, b.val)
    ka, kb = effective(a), effective(b)
    out = []
    for x in ka:
        out.append(s_or([tree_le(x, y) for y in kb if y.s is x.s]))
    for s in {k.s.tag: k.s for k in ka}.values():
        if s.user and s.kind in ('list', 'leaf-list'):
            la = [k for k in ka if k.s is s]
            lb = [k for k in kb if k.s is s]
            for x, y in zip(la, la[1:]):
                out.append(s_or([
                    s_and([same_entry(x, lb[i]), same_entry(y, lb[j])])
                    for j in range(len(lb)) for i in range(j)]))
    return s_and(out)


def one_case(n):
    """at most one case of every choice is populated"""
    seen = {}
    for k in effective(n):
        for ch, ca in k.s.case.items():
            if seen.setdefault(ch, ca) != ca:
                return False
    return all(one_case(k) for k in n.kids)


# -- normalisation -----------------------------------------------------------
def is_default(vals, s):
    """leaf-list values equal to the default set / sequence"""
    d = s.default
    if s.user:
        if len(vals) != len(d):
            return False
        return s_and([val_eq(v, x) for v, x in zip(vals, d)])
    return s_and([s_or([val_eq(v, x) for x in d]) for v in vals] +
                 [s_or([val_eq(v, x) for v in vals]) for x in d])


def normalise(n):
    """What a Config keeps of a tree: no explicit defaults, no empty
    non-presence containers, no list entries without any content.  Forks on
    value == default."""
    out = N(n.s, n.val)
    out.ns = n.ns
    drop = {}
    for k in n.kids:
        if k.s.kind == 'leaf-list' and k.s.default and k.s.tag not in drop:
            drop[k.s.tag] = bool(is_default([x.val for x in n.of(k.s.tag)],
                                            k.s))
    for k in n.kids:
        if k.s.kind == 'leaf':
            if k.s.default is not None and val_eq(k.val, k.s.default):
                continue
        elif drop.get(k.s.tag):
            continue
        c = normalise(k)
        if c.s.np and not c.kids:
            continue
        if c.s.kind == 'list' and not c.kids:
            continue
        out.kids.append(c)
    return out


def resolve(n):
    """normalised tree with identityref and instance-identifier values in
    namespace form"""
    return normalise(from_etree(to_etree(n)))


def keys_first(n):
    """RFC 7950, section 7.8.5"""
    k = len(n.s.keytags)
    return all(x.s.tag in n.s.keytags for x in n.kids[:k]) and \
        all(keys_first(x) for x in n.kids)


# -- generation --------------------------------------------------------------
class Gen(object):
    """Builds data trees with symbolic content.  names are input names."""

    def __init__(self, ctx, side, vlen=1, dom=ALNUM, empty=False, lens=None):
        self.ctx, self.side, self.vlen, self.dom = ctx, side, vlen, dom
        self.empty = empty
        self.lens = lens

    def s(self, name, n=None, dom=None):
        if self.empty and self.b('empty ' + name):
            return ''
        if self.lens:
            n = self.ctx.pick('%s.len %s' % (self.side, name), self.lens)
        return self.ctx.str('%s.%s' % (self.side, name), n or self.vlen,
                            dom or self.dom)

    def b(self, name):
        return self.ctx.bool('%s.%s' % (self.side, name))

    def leaf(self, n, name, path='', n_=None):
        """optional leaf with symbolic value"""
        if self.b('has ' + path + name):
            return n.add(name, self.s(path + name, n_))

    def count(self, name, hi):
        return self.ctx.choice('%s.#%s' % (self.side, name), hi + 1)

    def leaflist(self, n, name, hi, path=''):
        vals = []
        for i in range(self.count(path + name, hi)):
            v = self.s('%s%s[%d]' % (path, name, i))
            for w in vals:
                self.ctx.assume(s_not(val_eq(v, w)))
            vals.append(v)
            n.add(name, v)

    def list(self, n, name, hi, body=None, path=''):
        ents = []
        s = n.s.find(name)
        for i in range(self.count(path + name, hi)):
            p = '%s%s[%d]/' % (path, name, i)
            e = n.add(name)
            for k in s.key:
                e.add('%s:%s' % (s.mod, k), self.s(p + k))
            for x in ents:
                self.ctx.assume(s_not(same_entry(e, x)))
            ents.append(e)
            if body:
                body(self, e, p)
        return ents


# -- edit-config server (RFC 6241 section 7.2, RFC 7950 section 7) ------------
class EditError(Exception):
    pass


def server_apply(n, e):
    """Apply edit tree e to data tree n (both roots); returns a new tree.
    Elements are processed in document order."""
    out = n.copy()
    _edit_kids(out, e, 'merge')
    prune(out)
    return out


def prune(n):
    for k in list(n.kids):
        prune(k)
        if k.s.np and not k.kids:
            n.kids.remove(k)


def _match(n, e):
    for k in n.kids:
        if k.s is e.s and same_entry(k, e):
            return k
    return None


def _strip(e):
    """data carried by an edit element without attributes"""
    out = N(e.s, e.val)
    for k in e.kids:
        out.kids.append(_strip(k))
    return out


def _last_index(n, s):
    i = len(n.kids)
    for j, k in enumerate(n.kids):
        if k.s is s:
            i = j + 1
    return i


def parse_key_pred(text, nsmap, s):
    """[p:k='v'][..] -> values in schema key order"""
    t = raw(text)
    vals = {}
    i = 0
    while i < len(t):
        if t[i] != '[':
            raise EditError('bad key predicate')
        j = t.index('=', i)
        name = t[i + 1:j].strip()
        if ':' in name:
            p, ln = name.split(':')
            if nsmap.get(p) != NS[s.mod]:
                raise EditError('bad prefix in key predicate')
        else:
            ln = name
            if nsmap.get(None) != NS[s.mod]:
                raise EditError('no prefix in key predicate')
        q = t[j + 1]
        if q not in '"\'':
            raise EditError('bad quoting')
        end = j + 2
        while True:
            if end >= len(t):
                raise EditError('unterminated')
            c = engine.ceq(t[end], q)
            if c is True or (c is not False and bool(engine.SymBool(c))):
                break
            end += 1
        vals[ln] = t[j + 2:end]
        if t[end + 1:end + 2] != ']':
            raise EditError('bad key predicate')
        i = end + 2
    if set(vals) != set(s.key):
        raise EditError('wrong keys in predicate')
    return [vals[k] for k in s.key]


def _point(n, e):
    """the entry an insert attribute refers to"""
    if e.pt is None:
        raise EditError('missing insert point')
    kind, text = e.pt
    if e.s.kind == 'leaf-list':
        if kind != 'value':
            raise EditError('yang:key on leaf-list')
        if e.s.type == 'identityref':
            text = _ident(text, e.ns, e.s.mod)
        for k in n.of(e.s.tag):
            if val_eq(k.val, text):
                return k
    else:
        if kind != 'key':
            raise EditError('yang:value on list')
        want = parse_key_pred(text, e.ns, e.s)
        for k in n.of(e.s.tag):
            if s_and([val_eq(a, b) for a, b in zip(keyvals(k), want)]):
                return k
    raise EditError('insert point does not exist')


def _place(n, x, e, moving):
    """put entry x in n according to e's insert attribute"""
    if e.s.user and e.ins is not None:
        if e.ins in ('before', 'after'):
            pt = _point(n, e)
            if pt is x:
                return
        if moving:
            n.kids.remove(x)
        if e.ins == 'first':
            i = next((j for j, k in enumerate(n.kids) if k.s is e.s),
                     len(n.kids))
        elif e.ins == 'last':
            i = _last_index(n, e.s)
        elif e.ins == 'before':
            i = n.kids.index(pt)
        elif e.ins == 'after':
            i = n.kids.index(pt) + 1
        else:
            raise EditError('bad insert')
        n.kids.insert(i, x)
    elif not moving:
        n.kids.insert(_last_index(n, e.s), x)


def _clear_cases(n, s):
    for k in list(n.kids):
        if other_case(k.s, s):
            n.kids.remove(k)


def other_case(s, t):
    return any(t.case.get(ch, ca) != ca for ch, ca in s.case.items())


def _edit_kids(n, e, dop):
    for c in e.kids:
        if c.s.tag in e.s.keytags:
            continue
        for d in e.kids:
            # RFC 7950 section 8.3.1
            if other_case(c.s, d.s):
                raise EditError('bad-element: %s and %s are in different '
                                'cases' % (c.s.name, d.s.name))
        _edit(n, c, dop)


def _edit(n, e, dop):
    op = e.op or dop
    s = e.s
    peer = _match(n, e)
    exists = peer is not None and not empty_np(peer)
    if op not in ('merge', 'create', 'replace', 'delete', 'remove', 'none'):
        raise EditError('unknown operation %s' % op)
    if op == 'delete':
        if not exists and not s.np:
            raise EditError('data-missing: %s' % s.name)
        if peer is not None:
            n.kids.remove(peer)
        return
    if op == 'remove':
        if peer is not None:
            n.kids.remove(peer)
        return
    if op == 'create' and exists:
        raise EditError('data-exists: %s' % s.name)
    if op == 'none':
        if peer is None:
            raise EditError('data-missing: %s' % s.name)
        _edit_kids(peer, e, 'none')
        return
    _clear_cases(n, s)
    if s.kind in ('leaf', 'leaf-list'):
        if peer is None:
            _place(n, N(s, e.val), e, False)
        else:
            if s.kind == 'leaf':
                peer.val = e.val
            _place(n, peer, e, True)
        return
    # operations of descendants of created or replaced nodes apply to data
    # that does not exist (any more)
    if op in ('create', 'replace') and peer is not None:
        peer.kids[:] = []
        if s.kind == 'list':
            peer.kids[:] = [N(x.s, x.val) for t in s.keytags
                            for x in e.of(t)]
        _place(n, peer, e, True)
    elif peer is None:
        peer = N(s)
        if s.kind == 'list':
            peer.kids = [N(x.s, x.val) for t in s.keytags for x in e.of(t)]
        _place(n, peer, e, False)
    else:
        _place(n, peer, e, True)
    _edit_kids(peer, e, 'merge' if op in ('create', 'replace') else op)
