"""Downloading and scanning YANG modules."""
import itertools
import os
import shutil
from xml.sax.saxutils import escape
from lxml import etree
from symex import ctx as C
from symex.runner import Scenario
from symex.symstr import raw
from . import dev, lib, wire
from .common import LIBXML, show
from .sched import scheduled, sequential, crashing, Deadlock

MODULES = ['ncdiff.model', 'ncdiff.manager']
ASSUMPTIONS = [
    'pyang and ncclient run natively; the session below ncclient is a '
    'stand-in that serves modules.  Threads hand over before the lines that '
    'use shared state (dependencies, queues, files, pyang), at most 2 '
    '(thorough 3) times while they could continue; pyang itself is atomic.',
    'A crash may happen between any two lines that change files; the file '
    'written last may then be complete, half or empty.', LIBXML]


def setup():
    import ncdiff.manager
    return None


class Module(object):
    def __init__(self, name, imports=(), includes=(), belongs=None,
                 how='ok'):
        self.name, self.imports, self.includes = name, imports, includes
        self.belongs, self.how = belongs, how

    def text(self):
        if self.belongs:
            t = 'submodule %s { belongs-to %s { prefix %s; } ' % (
                self.name, self.belongs, self.belongs)
        else:
            t = 'module %s { namespace "urn:%s"; prefix p%s; ' % (
                (self.name,) * 3)
        t += ''.join('import %s { prefix p%s; } ' % (i, i)
                     for i in self.imports)
        t += ''.join('include %s; ' % i for i in self.includes)
        t += 'revision 2024-01-01; container c%s; }\n' % self.name
        if self.how == 'bad text':
            t = t[:-3]
        if self.how == 'not yang':
            t = '\u00e9 !'
        return t

    @property
    def served(self):
        return self.how not in ('error', 'lost')

    @property
    def parsed(self):
        return self.how == 'ok'

    def needs(self):
        return set(self.imports) | set(self.includes)


def connect(mods, announced, lose=None, mode=None, extra=()):
    """a device that serves modules"""
    def answer(op):
        if op.tag != '{%s}get-schema' % wire.NCM:
            return wire.ERROR
        n = raw(op.findtext('{%s}identifier' % wire.NCM))
        m = mods.get(n)
        if m is not None and m.how == 'lost':
            return RuntimeError('session lost')
        if m is None or not m.served:
            return wire.ERROR
        return '<data xmlns="%s">%s</data>' % (wire.NCM, escape(m.text()))
    caps = wire.BASE + ['urn:%s?module=%s' % (n, n) for n in announced] + \
        list(extra)
    d, s = wire.device(caps, answer)
    if mode is not None:
        d.raise_mode = mode
    return d, s


def closure(mods, announced):
    todo, seen = list(announced), set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        if n in mods and mods[n].served and mods[n].parsed:
            todo += mods[n].needs()
    return seen


def listing(folder):
    out = {}
    for r, ds, fs in os.walk(folder):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, 'rb') as h:
                out[os.path.relpath(p, folder)] = h.read()
    return out


def dependencies(mods, names):
    """what dependencies.xml should say about each module"""
    out = {}
    for n in names:
        m = mods[n]
        out[n] = ('submodule' if m.belongs else 'module',
                  None if m.belongs else 'p' + n,
                  None if m.belongs else 'urn:' + n, m.belongs,
                  sorted(m.imports), sorted(m.includes))
    return out


def read_dependencies(x):
    out = {}
    for m in x:
        if m.get('id') in out:
            return 'module %s twice' % m.get('id')
        b = m.find('belongs-to')
        out[m.get('id')] = (
            m.get('type'), m.get('prefix'), m.findtext('namespace'),
            None if b is None else b.get('module'),
            sorted(i.get('module') for i in m.findall('imports/import')),
            sorted(i.get('module') for i in m.findall('includes/include')))
    return out


def complete(ctx, folder, d, mods, announced, what=''):
    """the folder is what a finished download leaves"""
    have = listing(folder)
    want = {n + '.yang': mods[n].text().encode('utf-8')
            for n in closure(mods, announced) if n in mods and mods[n].served}
    yang = {n: t for n, t in have.items() if n.endswith('.yang')}
    ctx.check(sorted(yang) == sorted(want), 'not the modules that the device '
              'has and needs' + what)
    ctx.check(yang == want, 'a file differs from what the device sent' + what)
    ctx.check(have.get('capabilities.txt', b'').decode() == '\n'.join(
        sorted(d.server_capabilities)), 'capabilities.txt differs' + what)
    return [n[:-5] for n in want]


def known(ctx, comp, mods, names):
    x = comp.context.dependencies
    got = read_dependencies(x)
    show(ctx, dependencies=etree.tostring(x))
    ctx.check(got == dependencies(mods, [n for n in names if mods[n].parsed]),
              'wrong dependencies')
    there = [n for n in names if mods[n].parsed]
    for n in there:
        i, d = comp.get_dependencies(n)
        want = set()
        for k in there:
            m = mods[k]
            if n in m.imports:
                want |= {k, m.belongs or k}
            if n in m.includes:
                want.add(k)
        ctx.check((set(i), set(d)) == (set(mods[n].imports), want),
                  'wrong modules that a module depends on')


def universe(ctx, names, edges, bad=()):
    """modules with a symbolic import graph"""
    imports = {n: [] for n in names}
    for a, b in edges:
        if ctx.bool('%s imports %s' % (a, b)):
            imports[a].append(b)
    mods = {}
    for n in names:
        how = ctx.pick('%s is' % n, ['ok'] + list(bad.get(n, ()))) \
            if bad else 'ok'
        mods[n] = Module(n, imports[n], how=how)
    return mods


class scratch(object):
    def __enter__(self):
        self.d = dev.scratch({})
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def graph(ctx, env, bad=None):
    """any import graph, any announced modules, modules that are refused or
    cannot be read"""
    names = 'abc'
    mods = universe(ctx, names, [('a', 'b'), ('a', 'c'), ('b', 'c'),
                                 ('c', 'a')], bad or {})
    sub = bad is None and ctx.bool('submodule')
    if sub:
        mods['b'].includes = ['s']
        mods['s'] = Module('s', belongs='b')
    announced = ctx.subset('announced', names)
    mode = ctx.pick('raise_mode', [None, 0]) if bad else None
    with scratch() as tmp, sequential():
        folder = os.path.join(tmp, 'x', 'yang')
        if ctx.bool('old files'):
            os.makedirs(os.path.join(folder, 'sub'))
            for f in ('old.yang', 'a.xml', os.path.join('sub', 'y.yang'),
                      'dependencies.xml'):
                with open(os.path.join(folder, f), 'w') as h:
                    h.write('<modules><module id="old"/></modules>')
        d, s = connect(mods, announced, mode=mode)
        show(ctx, mods=[(m.text(), m.how) for m in mods.values()],
             announced=announced)
        d.scan_models(folder=folder)
        show(ctx, files=listing(folder))
        names = complete(ctx, folder, d, mods, announced)
        known(ctx, d.compiler, mods, names)
        ctx.check(sorted(os.path.basename(n) for n in listing(folder)) ==
                  sorted([n + '.yang' for n in names] +
                         ['capabilities.txt', 'dependencies.xml']),
                  'old files are left')
        # once more: nothing to do
        n = len(s.sent)
        d2, s2 = connect(mods, announced, mode=mode)
        d2.scan_models(folder=folder)
        ctx.check(not s2.sent, 'downloaded again without need')
        known(ctx, d2.compiler, mods, names)


def schedules(ctx, env, n, kind):
    """two workers, any schedule"""
    if kind == 'shared':
        mods = {'a': Module('a', ['c']), 'b': Module('b', ['c']),
                'c': Module('c')}
        announced = ['a', 'b']
    elif kind == 'chain':
        mods = {'a': Module('a', ['b']), 'b': Module('b', ['c']),
                'c': Module('c')}
        announced = ['a']
    else:
        mods = {'a': Module('a', ['b'], how='error'),
                'b': Module('b', how='not yang'), 'c': Module('c')}
        announced = ['a', 'b', 'c']
    if ctx.tier == 'thorough':
        n += 1
    with scratch() as tmp:
        d, s = connect(mods, announced)
        from ncdiff.model import ModelDownloader, ModelCompiler
        try:
            with scheduled(ctx, n):
                m = ModelDownloader(d, tmp)
                m.download_all()
        except Deadlock as e:
            ctx.check(False, 'a download never ends: %s' % e)
            return
        names = complete(ctx, tmp, d, mods, announced)
        with sequential():
            comp = ModelCompiler(tmp)
        known(ctx, comp, mods, names)


def crash(ctx, env, download):
    """a crash at any point of a download; the next scan repairs"""
    mods = {'a': Module('a', ['b']), 'b': Module('b')}
    announced = ['a']
    with scratch() as tmp, sequential():
        state = ctx.pick('before', ['nothing', 'complete', 'other device'])
        if state == 'complete':
            d, s = connect(mods, announced)
            d.scan_models(folder=tmp)
            ctx.check(True, '')
        elif state == 'other device':
            old = {'z': Module('z')}
            d, s = connect(old, ['z'])
            d.scan_models(folder=tmp)
        d, s = connect(mods, announced)
        with crashing(ctx, tmp) as c:
            d.scan_models(folder=tmp, download=download)
        show(ctx, crashed=c.crashed, files=listing(tmp))
        d, s = connect(mods, announced)
        d.scan_models(folder=tmp)
        show(ctx, after=listing(tmp))
        names = complete(ctx, tmp, d, mods, announced, ' after a crash')
        known(ctx, d.compiler, mods, names)


def lost(ctx, env):
    """the session is lost during a download; the next scan repairs"""
    mods = {n: Module(n, how='lost' if ctx.bool(n + ' lost') else 'ok')
            for n in 'abc'}
    mods['a'].imports = ['c']
    announced = ctx.subset('announced', 'abc')
    with scratch() as tmp, sequential():
        d, s = connect(mods, announced)
        d.scan_models(folder=tmp, download=ctx.pick('download', ['check',
                                                                 'force']))
        for m in mods.values():
            m.how = 'ok'
        d, s = connect(mods, announced)
        d.scan_models(folder=tmp)
        names = complete(ctx, tmp, d, mods, announced,
                         ' after a lost session')
        known(ctx, d.compiler, mods, names)


def need(ctx, env):
    """the cache is used exactly for the same capabilities"""
    mods = {'a': Module('a'), 'b': Module('b')}
    x = raw(ctx.str('capability', 1, C.ALNUM))
    y = raw(ctx.str('capability now', 1, C.ALNUM))
    same = bool(lib.val_eq(x, y))
    if same:
        y = x       # the code may compare lines, but it may compare sets too
    ann = ctx.subset('announced', 'ab')
    now = ctx.subset('announced now', 'ab')
    how = ctx.pick('download', ['check', 'force', 'ignore'])
    with scratch() as tmp, sequential():
        d, s = connect(mods, ann, extra=['urn:x:' + x])
        d.scan_models(folder=tmp)
        d, s = connect(mods, now, extra=['urn:x:' + y])
        d.scan_models(folder=tmp, download=how)
        asked = [raw(o.findtext('{%s}identifier' % wire.NCM)) for o in s.sent]
        show(ctx, before=ann, now=now, asked=asked)
        if how == 'ignore' or (how == 'check' and ann == now and same):
            ctx.check(not asked, 'downloaded again without need')
        else:
            ctx.check(sorted(asked) == sorted(now), 'not downloaded again')
        if how == 'ignore':
            now = ann
        names = [n for n in now]
        known(ctx, d.compiler, mods, names)
        ctx.check(sorted(n for n, p, u in d.namespaces) == sorted(names),
                  'wrong namespaces')


def rescan(ctx, env):
    """one device scans several folders"""
    mods = {n: Module(n) for n in 'abc'}
    with scratch() as t1, scratch() as t2, sequential():
        d, s = connect(mods, 'abc')
        for i, t in enumerate((t1, t2)):
            names = ctx.subset('files%d' % i, 'abc')
            for n in names:
                with open(os.path.join(t, n + '.yang'), 'w') as f:
                    f.write(mods[n].text())
            d.scan_models(folder=t, download='ignore')
            ctx.check(sorted(d.namespaces) == sorted(
                (n, 'p' + n, 'urn:' + n) for n in names), 'wrong namespaces')


FILES = {'good': 'module %s { namespace "urn:%s"; prefix p%s; revision '
                 '2024-01-01; container c%s; }\n',
         'cut': 'module %s { namespace "urn:%s"; prefix',
         'empty': '', 'latin-1': b'\xe9', 'no prefix': 'module %s { namespace '
         '"urn:%s"; import q; }', 'other': 'hello %s'}


def folders(ctx, env, schedule=0):
    """any content of a folder: scanning ends, good modules are known"""
    from ncdiff.model import ModelCompiler
    with scratch() as tmp:
        good = []
        for n in 'ab' if not schedule else 'abc':
            k = ctx.pick(n, [None] + sorted(FILES) if not schedule else
                         ['good', 'latin-1', 'no prefix'])
            if k is None:
                continue
            t = FILES[k]
            if not isinstance(t, bytes):
                t = (t % ((n,) * t.count('%s'))).encode('utf-8')
            ext = '.yang' if schedule else ctx.pick(n + ' name', [
                '.yang', '.YANG', '.txt'])
            with open(os.path.join(tmp, n + ext), 'wb') as f:
                f.write(t)
            if k == 'good' and ext != '.txt':
                good.append(n)
        deps = None if schedule else ctx.pick(
            'dependencies.xml', [None, '', '<modules><module'])
        if deps is not None:
            with open(os.path.join(tmp, 'dependencies.xml'), 'w') as f:
                f.write(deps)
        show(ctx, files=listing(tmp))
        try:
            with scheduled(ctx, schedule):
                comp = ModelCompiler(tmp)
        except Deadlock as e:
            ctx.check(False, 'scanning never ends: %s' % e)
            return
        x = comp.context.dependencies
        got = [m.get('id') for m in x] if x is not None else []
        show(ctx, got=got)
        ctx.check(len(got) == len(set(got)), 'a module twice')
        ctx.check(set(good) <= set(got), 'a module is missing')


ROOTS = ['container', 'leaf', 'leaf-list', 'list', 'choice', 'uses']


def node(kind, name, inside=''):
    body = {'container': '', 'leaf': 'type string;', 'list': 'key k; leaf k '
            '{ type string; }', 'leaf-list': 'type string;',
            'choice': 'leaf %sc { type string; }' % name, 'uses': ''}[kind]
    return '%s %s { %s %s } ' % (kind, 'g' if kind == 'uses' else name,
                                 inside, body)


def facts(ctx, env):
    """what is known of a module: its statements"""
    from ncdiff.model import ModelCompiler
    sub = ctx.bool('submodule')
    # what it exposes
    k1 = ctx.pick('node', [None] + ROOTS)
    k2 = ctx.pick('node 2', [None, 'leaf', 'uses'])
    hidden = [k is not None and ctx.bool('hidden%d' % i)
              for i, k in enumerate((k1, k2))]
    other = ctx.pick('inside', ['', 'tailf:info x;', 'x:hidden y;'])
    body = 'grouping g { leaf u { type string; } } '
    for i, k in enumerate((k1, k2)):
        if k is not None:
            body += node(k, 'n%d' % i, other + (
                ' tailf:hidden full;' if hidden[i] else ''))
    roots = any(k is not None and not h for k, h in zip((k1, k2), hidden))
    # what it refers to
    imports = [('tailf-common', 'tailf'), ('xx', 'x')]
    more = k2 is None and not other
    if more and ctx.bool('import'):
        imports.append(('b', raw(ctx.str('prefix', 1, C.NAME)) + 'p'))
    includes = ['s1'] if more and ctx.bool('include') else []
    revs = ctx.subset('revisions', ['2024-01-01', '2023-05-06']) \
        if more else ['2024-01-01']
    augs, devs = [], []
    if more and ctx.bool('augment and deviation'):
        augs = ['/x:c', '/x:d']
        devs = ['/x:c/x:y']
    t = 'submodule a { belongs-to z { prefix z; } ' if sub else \
        'module a { namespace "urn:a"; prefix "pa"; '
    t += ''.join('import %s { prefix %s; } ' % i for i in imports)
    t += ''.join('include %s; ' % i for i in includes)
    t += ''.join('revision %s; ' % r for r in revs)
    t += ''.join('augment "%s" { leaf l%d { type string; } } ' % (p, i)
                 for i, p in enumerate(augs))
    t += ''.join('deviation "%s" { deviate not-supported; } ' % p
                 for p in devs)
    t += body + '}\n'
    show(ctx, text=t)
    with scratch() as tmp, sequential():
        with open(os.path.join(tmp, 'a.yang'), 'w') as f:
            f.write(t)
        for again in range(2):
            comp = ModelCompiler(tmp)   # the second time from the file
            x = comp.context.dependencies
            show(ctx, dependencies=etree.tostring(x))
            ctx.check(len(x) == 1, 'one module')
            m = x[0]
            ctx.check(read_dependencies(x) == {'a': (
                'submodule' if sub else 'module', None if sub else 'pa',
                None if sub else 'urn:a', 'z' if sub else None,
                sorted(n for n, p in imports), includes)}, 'wrong facts')
            ctx.check(sorted((i.get('module'), i.get('prefix')) for i in
                             m.findall('imports/import')) == sorted(imports),
                      'wrong prefixes of imports')
            for n, attr, want in (('revision', 'date', revs),
                                  ('augment', 'xpath', augs),
                                  ('deviation', 'xpath', devs)):
                ctx.check(sorted(i.get(attr) for i in m.findall(
                    '%ss/%s' % (n, n))) == sorted(want), 'wrong ' + n)
            ctx.check((m.find('roots') is not None) == roots,
                      'whether a module has roots')
            i, d = comp.get_dependencies('a')
            ctx.check(sorted(i) == sorted(n for n, p in imports) and
                      not d, 'wrong imports of a module')


BAD = {n: ('error', 'bad text', 'not yang') for n in 'ab'}
SCENARIOS = [
    Scenario('graph', graph, '3 modules, 16 import graphs, a submodule, any '
             'announced modules'),
    Scenario('refused', graph, 'as graph; a and b refused or not readable',
             bad=BAD, tier='thorough'),
    Scenario('schedule shared', schedules, '2 workers, 3 modules, 2 '
             'preemptions', n=2, kind='shared'),
    Scenario('schedule chain', schedules, '2 workers, 3 modules, 2 '
             'preemptions', n=2, kind='chain'),
    Scenario('schedule refused', schedules, '2 workers, 3 modules, 2 '
             'preemptions', n=2, kind='refused'),
    Scenario('crash check', crash, 'a crash at any point, 3 states before',
             download='check'),
    Scenario('crash force', crash, 'a crash at any point, 3 states before',
             download='force'),
    Scenario('lost', lost, '3 modules, any of them lost'),
    Scenario('facts', facts, 'a module or submodule, <=2 root nodes of 6 '
             'kinds, hidden or not; <=3 imports, include, revisions'),
    Scenario('need', need, 'symbolic capabilities, 2 modules'),
    Scenario('rescan', rescan, 'two folders with any of 3 modules'),
    Scenario('folders', folders, '2 files of 6 kinds, 3 names'),
    Scenario('folders scheduled', folders, '3 files of 3 kinds', schedule=2),
]
