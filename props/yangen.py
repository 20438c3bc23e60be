"""YANG modules written from a description, and the schema tree that the
description means (own reading of RFC 7950)."""
import re


class Y(object):
    """a data node; attributes of the YANG statement by keyword"""

    def __init__(self, kind, name, *kids, **kw):
        self.kind, self.name, self.kids = kind, name, list(kids)
        self.mod = kw.pop('mod', None)      # module whose namespace it has
        self.kw = kw                        # see text()
        self.via = kw.pop('via', None)      # defined elsewhere: not written
        self.datatype = kw.pop('datatype', None)
        self.values = kw.pop('values', None)
        self.members = kw.pop('members', None)

    def text(self):
        k, out = self.kw, []
        if self.kind in ('leaf', 'leaf-list'):
            out.append(k.get('type', 'type string;'))
        for x in ('key', 'presence', 'units'):
            if k.get(x) is not None:
                out.append('%s "%s";' % (x, k[x]))
        for d in k.get('default', ()):
            out.append('default "%s";' % d)
        for x in ('config', 'mandatory', 'status'):
            if k.get(x) is not None:
                out.append('%s %s;' % (x, k[x]))
        if k.get('ordered'):
            out.append('ordered-by %s;' % k['ordered'])
        for f in k.get('features', ()):
            out.append('if-feature %s;' % f)
        out.append(k.get('extra', ''))
        out += [c.text() for c in self.kids if not c.via]
        name = self.name
        if self.kind in ('input', 'output'):
            name = ''
        return '%s %s { %s }' % (self.kind, name, ' '.join(out))

    def expect(self, mod, urls, config=True, mode=None, keys=()):
        """(tag, attributes, children)"""
        k = self.kw
        m = self.mod or mod
        at = {'type': self.kind}
        mode = {'rpc': 'write', 'input': 'write', 'output': 'read-only',
                'notification': 'read-only'}.get(self.kind, mode)
        if k.get('config') is not None:
            config = config and k['config'] == 'true'
        at['access'] = mode or ('read-write' if config else 'read-only')
        if k.get('status') in ('deprecated', 'obsolete'):
            at['status'] = k['status']
        if k.get('default'):
            at['default'] = ','.join(k['default'])
        if k.get('key') is not None:
            at['key'] = k['key']
        if k.get('ordered') == 'user':
            at['ordered-by'] = 'user'
        if k.get('presence') is not None:
            at['presence'] = 'true'
        if k.get('mandatory') == 'true' or self.name in keys:
            at['mandatory'] = 'true'
        if self.name in keys:
            at['is_key'] = 'true'
        if k.get('features'):
            at['if-feature'] = ' '.join(k['features'])
        if self.kind in ('leaf', 'leaf-list'):
            at['datatype'] = self.datatype or 'string'
        kids = self.kids
        if self.kind == 'choice':
            cases = [c.name for c in kids if c.kind == 'case' and not c.via]
            if cases:
                at['values'] = '|'.join(cases)
            kids = [c if c.kind == 'case' else
                    Y('case', c.name, c, mod=c.mod or m) for c in kids]
            for c in kids:
                # a shorthand case has the config of its node
                pass
        if self.values:
            at['values'] = self.values
        if self.members:
            at['unionmembertypes'] = self.members
        ks = k['key'].split() if k.get('key') else ()
        return ('{%s}%s' % (urls[m], self.name), at,
                [c.expect(m, urls, config, mode, ks) for c in kids])


def got(e):
    return (e.tag, dict(e.attrib), [got(c) for c in e])


def unordered(t):
    return (t[0], tuple(sorted(t[1].items())),
            tuple(sorted(unordered(c) for c in t[2])))


def module(name, body, imports=(), includes=(), features=(), prefix=None,
           belongs=None, head=''):
    out = '%s %s { yang-version 1.1; ' % (
        'submodule' if belongs else 'module', name)
    if belongs:
        out += 'belongs-to %s { prefix %s; } ' % belongs
    else:
        out += 'namespace "urn:%s"; prefix %s; ' % (name, prefix or name)
    out += ''.join('import %s { prefix %s; } ' % i for i in imports)
    out += ''.join('include %s; ' % i for i in includes)
    out += 'revision 2024-01-01 { description "d"; } '
    out += ''.join('feature %s; ' % f for f in features)
    return out + head + body + ' }\n'


def respell(files, own, imported):
    """the same modules with other prefixes: own maps a module to its prefix,
    imported(module, imported module) is the prefix of an import"""
    out = {}
    for name, text in files.items():
        to = {}

        def imp(m):
            to[m.group(2)] = imported(name, m.group(1))
            return 'import %s { prefix %s; }' % (m.group(1), to[m.group(2)])
        text = re.sub(r'import (\S+) { prefix (\S+); }', imp, text)

        def bel(m):
            to[m.group(2)] = own[m.group(1)]
            return 'belongs-to %s { prefix %s; }' % (m.group(1),
                                                     to[m.group(2)])
        text = re.sub(r'belongs-to (\S+) { prefix (\S+); }', bel, text)

        def me(m):
            to[m.group(2)] = own[name]
            return '%s prefix %s;' % (m.group(1), to[m.group(2)])
        text = re.sub(r'(namespace "\S+";) prefix (\S+);', me, text)
        text = re.sub(r'(?<![\w.:-])(\w+):(?=[a-z])', lambda m: to.get(
            m.group(1), m.group(1)) + ':', text)
        out[name] = text
    return out


class Same(dict):
    def __missing__(self, key):
        return key


def long(name):
    return 'pre-' + name


# name: (own prefixes, prefixes of imports)
PREFIXES = {
    'names': (Same(), lambda m, o: o),
    'own': ({m: long(m) for m in 'mopz'}, lambda m, o: long(o)),
    'import': (Same(), lambda m, o: long(o)),
    # m has prefix o and imports o with prefix z, the prefix of another one
    'crossed': (Same(m='o', o='m'), lambda m, o: {
        ('m', 'o'): 'z', ('o', 'm'): 'z', ('os', 'm'): 'z'}.get((m, o), o)),
    'shared': (Same(m='x', o='x', z='x', p='x'),
               lambda m, o: 'i' + o),
}
