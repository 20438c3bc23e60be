"""Renderings of a delta: random order of siblings, replace attributes."""
import itertools
import random
from lxml import etree
from symex.runner import Scenario
from . import lib, shapes
from .common import (CONFIG_MODULES as MODULES, ASSUME, setup, gen, config,
                     show, options, QUICK)

ASSUMPTIONS = ASSUME + [
    'The random module is a stand-in: the permutation it returns for a seed '
    'and a length is arbitrary (up to 3, thorough 4, siblings: every permutation; more: reversed and rotated), the '
    'same seed gives the same one.',
    'NETCONF server: lib.server_apply.']
OP = '{%s}operation' % lib.NC


class Chance(object):
    """stand-in for the random module"""

    def __init__(self, ctx):
        self.ctx, self.calls, self.cur = ctx, 0, None
        self.made = 0

    def perm(self, n):
        full = 4 if self.ctx.tier == 'thorough' else 3
        # a prefix of all permutations, so that an index means the same in
        # every tier
        x = tuple(range(n))
        ps = [x[::-1], x[1:] + x[:1], x[-1:] + x[:-1]][:n]
        if n <= full:
            ps += [p for p in itertools.permutations(x) if p not in ps]
        self.calls += 1
        # without a seed every call may differ
        who = 'seed %s' % self.cur if self.cur is not None else \
            'call %d' % self.calls
        return self.ctx.pick('order of %d (%s)' % (n, who), ps)

    def seed(self, a=None, version=2):
        self.cur = a

    def sample(self, population, k):
        x = list(population)
        return [x[i] for i in self.perm(len(x))][:k]

    def shuffle(self, x):
        x[:] = self.sample(x, len(x))

    def randint(self, a, b):
        self.made += 1
        return a + self.ctx.choice('randint%d' % self.made, min(3, b - a + 1))

    def randrange(self, a, b=None):
        return self.randint(a, b - 1) if b is not None else \
            self.randint(0, a - 1)

    def __getattr__(self, name):
        return getattr(random, name)

    def Random(self, x=None):
        r = Chance(self.ctx)
        r.seed(x)
        return r


class stub(object):
    def __init__(self, ctx):
        self.r = Chance(ctx)

    def __enter__(self):
        import ncdiff.config as m
        self.m, self.old = m, getattr(m, 'random', None)
        if self.old is not None:
            m.random = self.r
        return self.r

    def __exit__(self, *a):
        if self.old is not None:
            self.m.random = self.old


def text(e):
    return etree.tostring(e, encoding='unicode').strip()


def iskey(env, e):
    return env.get_schema_node(e).get('is_key') == 'true'


def permuted(ctx, env, a, b, depth):
    """b is a with the children at the given depth permuted"""
    ctx.check(a.tag == b.tag and (a.text or '').strip() ==
              (b.text or '').strip() and dict(a.attrib) == dict(b.attrib),
              'a node changes')
    if depth == 0:
        ta, tb = [text(c) for c in a], [text(c) for c in b]
        ctx.check(sorted(ta) == sorted(tb), 'not the same siblings')
        ka = [text(c) for c in a if iskey(env, c)]
        ctx.check(tb[:len(ka)] == ka, 'keys are not in front')
        return
    ctx.check(len(a) == len(b), 'not the same siblings')
    for x, y in zip(a, b):
        permuted(ctx, env, x, y, depth - 1)


def shuffle(ctx, env, shape, depths=(0, 1, 2), opts=None, new=False):
    from ncdiff.config import ConfigDelta
    ta = lib.root() if new else gen(ctx, shape, 'A')
    tb = gen(ctx, shape, 'B')
    A, B = config(env, ta), config(env, tb)
    kw = ctx.pick('options', opts or QUICK)
    plain = ConfigDelta(config_src=A, config_dst=B, **kw).nc
    depth, seed = ctx.pick('depth', depths), 7
    with stub(ctx):
        how = 'constructor' if depth else 'attributes'
        if how == 'constructor':
            d = ConfigDelta(config_src=A, config_dst=B, random_depth=depth,
                            random_seed=seed, **kw)
        else:
            d = ConfigDelta(config_src=A, config_dst=B, **kw)
            d.random_depth = depth
            d.random_seed = seed
        nc = d.nc
        again = d.nc
        show(ctx, A=A, B=B, options=kw, delta=text(plain), random=text(nc),
             depth=depth)
        ctx.check(text(nc) == text(again), 'the same seed gives another '
                  'order')
        permuted(ctx, env, plain, nc, depth)
        C = A + d
    na, nb = lib.resolve(ta), lib.resolve(tb)
    ctx.check(lib.tree_eq(lib.from_etree(C.ele), nb),
              'A + (B - A) differs from B')
    try:
        srv = lib.server_apply(na, lib.from_etree(nc, edit=True))
    except lib.EditError as e:
        ctx.check(False, 'a NETCONF server rejects the delta: %s' % e)
        return
    ctx.check(lib.tree_eq(srv, nb),
              'a NETCONF server ends up in a different config')


def chain(g, r):
    """nodes below only children"""
    t = r.add('vx:top')
    i = t.add('vx:in')
    g.leaf(i, 'vx:x')
    i.add('vx:y', g.s('y'))
    d = i.add('vx:deep')
    d.add('vx:z', 'z')
    g.leaflist(d, 'vx:dl', 2)


def nodes_at(root, depth):
    out = [root]
    for i in range(depth):
        out = [c for x in out for c in x]
    return out


def moved(ctx, env, shape):
    """siblings at the depth do change places, wherever they are"""
    from ncdiff.config import ConfigDelta
    A, B = config(env, lib.root()), config(env, gen(ctx, shape, 'B'))
    depth = ctx.pick('depth', (0, 1, 2, 3))
    plain = ConfigDelta(config_src=A, config_dst=B).nc
    d = ConfigDelta(config_src=A, config_dst=B, random_depth=depth,
                    random_seed=0)
    show(ctx, plain=text(plain), depth=depth)
    had = set()
    for seed in range(1, 21):
        d.random_seed = seed
        nc = d.nc
        for i, x in enumerate(nodes_at(nc, depth)):
            y = nodes_at(plain, depth)[i]
            if [text(c) for c in x] != [text(c) for c in y]:
                had.add(i)
    for i, x in enumerate(nodes_at(plain, depth)):
        free = [c for c in x if not iskey(env, c)]
        if len({c.tag for c in free}) > 1:
            ctx.check(i in had, 'no seed changes the order of siblings')


class Hashes(object):
    """what differs between processes: hashes of strings, order of sets"""

    def __init__(self, ctx, n):
        self.ctx, self.n, self.seen = ctx, n, {}

    def hash(self, x):
        if not isinstance(x, str):
            return hash(x)
        if x not in self.seen:
            self.seen[x] = self.ctx.pick('hash %d in process %d' % (
                len(self.seen), self.n), [0, 1, 5])
        return self.seen[x]

    def set(self, items=()):
        r = set.__new__(Order)
        set.__init__(r, items)
        r.turn = self.n
        return r

    def __enter__(self):
        import ncdiff.config as m
        m.hash, m.set = self.hash, self.set
        return self

    def __exit__(self, *a):
        import ncdiff.config as m
        del m.hash, m.set


class Order(set):
    turn = 0

    def __iter__(self):
        x = sorted(set.__iter__(self), key=str)
        return iter(x if not self.turn else x[::-1])


def processes(ctx, env, shape):
    """the same seed gives the same order in every process"""
    from ncdiff.config import ConfigDelta
    A, B = config(env, lib.root()), config(env, gen(ctx, shape, 'B'))
    depth = ctx.pick('depth', (0, 1))
    out = []
    for n in range(2):
        d = ConfigDelta(config_src=A, config_dst=B, random_depth=depth,
                        random_seed=7)
        with Hashes(ctx, n):
            out.append(text(d.nc))
    show(ctx, first=out[0], second=out[1])
    ctx.check(out[0] == out[1], 'the order depends on the process')


def seeds(ctx, env):
    """what random_seed is"""
    from ncdiff.config import ConfigDelta
    A, B = lib.root(), gen(ctx, shapes.leafs, 'B')
    A, B = config(env, A), config(env, B)
    depth = ctx.pick('depth', [None, 0, 3, -1, '1'])
    seed = ctx.pick('seed', [None, 0, 12345, '7', 1.5])
    how = ctx.pick('how', ['constructor', 'attributes', 'depth only'])
    if how == 'depth only':
        ctx.assume(seed is None)
    good = depth is None or depth in (0, 3)
    with stub(ctx) as r:
        try:
            if how == 'constructor':
                d = ConfigDelta(config_src=A, config_dst=B,
                                random_depth=depth, random_seed=seed)
            else:
                ctx.assume(good)
                d = ConfigDelta(config_src=A, config_dst=B)
                d.random_depth = depth
                if how == 'attributes':
                    d.random_seed = seed
        except ValueError:
            ctx.check(not good or seed in ('7', 1.5), 'good seed refused')
            return
        ctx.check(good and seed not in ('7', 1.5), 'bad depth or seed '
                  'accepted')
        got = d.random_seed
        if depth is None:
            ctx.check(got is None, 'a seed without random_depth')
        elif seed is not None:
            ctx.check(got == seed, 'another seed')
        else:
            ctx.check(isinstance(got, int) and r.made > 0,
                      'no seed is generated')
            ctx.check(d.random_seed == got, 'the seed changes')
            n1, n2 = text(d.nc), text(d.nc)
            ctx.check(n1 == n2, 'the same seed gives another order')


def marked(e):
    return [x for x in e.iter() if x.get('operation') == 'replace' or
            x.get(OP) == 'replace']


def level(root, n):
    nodes = [root]
    for i in range(n + 1):
        nodes = [c for x in nodes for c in x]
    return nodes


def strip(e):
    for x in e.iter():
        x.attrib.pop('operation', None)
    return text(e)


XPATHS = ['/nc:config/vx:top', '/nc:config/vx:top/vx:in',
          '//vx:sl', '//vx:x', '/nc:config/vx:top/vx:a']


def minreplace(ctx, env, shape):
    """diff_type minimum-replace"""
    from ncdiff.config import ConfigDelta
    ta, tb = gen(ctx, shape, 'A'), gen(ctx, shape, 'B')
    A, B = config(env, ta), config(env, tb)
    plain = ConfigDelta(config_src=A, config_dst=B).nc
    xp = ctx.pick('xpath', [None] + XPATHS)
    kw = dict(replace_xpath=xp) if xp else \
        dict(replace_depth=ctx.pick('depth', [0, 1, 2]))
    ns = env._get_ns(plain)
    if xp:
        # a prefix that is not in use is an error of XPath
        ctx.assume('vx' in ns)
    d = ConfigDelta(config_src=A, config_dst=B, diff_type='minimum-replace',
                    **kw)
    nc = d.nc
    show(ctx, A=A, B=B, options=kw, delta=text(nc))
    want = nc.xpath(xp, namespaces={'nc': lib.NC, 'vx': 'urn:vx'}) if xp \
        else level(nc, kw['replace_depth'])
    got = marked(nc)
    ctx.check(len(got) == len(want) and
              {id(x) for x in got} == {id(x) for x in want},
              'replace is not on exactly the nodes that are asked for')
    ctx.check(strip(nc) == text(plain), 'the content is not that of the '
              'minimum delta')




def known_minreplace(ctx, env):
    """known finding C19-minreplace"""
    from ncdiff.config import ConfigDelta
    ta, tb = lib.root(), lib.root()
    ta.add('vx:top').add('vx:a', 'x')
    ta.kids[0].add('vx:b', 'y')
    tb.add('vx:top').add('vx:a', ctx.str('a'))
    tb.kids[0].add('vx:b', 'y')
    A, B = config(env, ta), config(env, tb)
    nc = ConfigDelta(config_src=A, config_dst=B,
                     diff_type='minimum-replace').nc
    show(ctx, A=A, B=B, delta=text(nc))
    ctx.region('C19-minreplace', True)
    ctx.check(not [x for x in nc.iter() if x.get('operation')],
              'operation attribute without the namespace of NETCONF')


N = [('leafs', shapes.leafs), ('slist', shapes.slist1),
('two keys', shapes.two_keys1),
     ('modules', shapes.modules1), ('choice', shapes.choice1),
     ('leaf-list', shapes.leaflist_leaf)]
ONE = QUICK[:1]
U = [('user list', lambda g, r: shapes.ulist(g, r, 2)),
     ('user leaf-list', lambda g, r: shapes.userleaflist(g, r, 2))]
SCENARIOS = [Scenario('shuffle ' + n, shuffle, n + ', depths 0-2', shape=s,
                      opts=ONE) for n, s in N]
SCENARIOS += [Scenario('shuffle ' + n, shuffle, n, shape=s, opts=ONE,
                       depths=(0, 1)) for n, s in U]
SCENARIOS += [Scenario('shuffle mix', shuffle, 'empty A, B with a, ls, lu, ul',
                       shape=shapes.mix, opts=ONE, new=True, depths=(0, 1))]
SCENARIOS += [Scenario('options ' + n, shuffle, n + ', 8 sets of options',
                       shape=s, tier='thorough') for n, s in N]
SCENARIOS += [
    Scenario('seeds', seeds, '5 depths, 5 seeds, 3 ways to set them'),
    Scenario('moved', moved, 'top{a, b, in{x}}, 4 depths, 20 seeds',
             shape=shapes.leafs),
    Scenario('moved chain', moved, 'top{in{x, y, deep{z, dl}}}, 4 depths, 20 '
             'seeds', shape=chain),
    Scenario('processes', processes, 'empty A, B with a, ls, lu, ul; hashes '
             'of strings and order of sets', shape=shapes.mix),
    Scenario('replace leafs', minreplace, 'top{a, b, in{x}}, depths 0-2, '
             '5 XPaths', shape=shapes.leafs),
    Scenario('replace slist', minreplace, '<=2 sl', shape=shapes.slist1),
    Scenario('known_minreplace', known_minreplace, 'one leaf'),
]
