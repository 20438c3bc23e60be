"""Shared by the harnesses on Config and ConfigDelta."""
from symex import ctx as ctxm
from . import dev, lib, shapes

CONFIG_MODULES = ['ncdiff.config', 'ncdiff.netconf', 'ncdiff.calculator',
                  'ncdiff.composer', 'ncdiff.manager', 'ncdiff.ref']
UNIVERSE = ('Schema: the YANG modules vx and vy in /verif/yang, compiled by '
            "the repository's own ModelCompiler; the oracle uses its own "
            'hand-written copy of that schema.')
CHARS = ('Values and keys are single symbolic characters (printable ASCII '
         'without space, < > & quotes and path punctuation unless the '
         'scenario says otherwise); entry counts and presence of nodes are '
         'symbolic up to the stated bounds.')
LIBXML = ('lxml/libxml2 (parsing, tree editing, serialisation) is executed '
          'natively and trusted; branch decisions on symbolic text inside '
          'XPath are modelled by the engine and cross-checked by replaying '
          'path witnesses on the unmodified code.')
ASSUME = [UNIVERSE, CHARS, LIBXML]

# create, replace, delete, diff_type/replace_depth
FULL = [dict(preferred_create=c, preferred_replace=r, preferred_delete=d)
        for c in ('merge', 'create', 'replace')
        for r in ('merge', 'replace') for d in ('delete', 'remove')]
FULL += [dict(preferred_delete=d, diff_type='replace', replace_depth=0)
         for d in ('delete', 'remove')]
FULL += [dict(preferred_create=c, preferred_replace=r, preferred_delete=d,
              diff_type='replace', replace_depth=n)
         for c in ('merge', 'create') for n in (1, 2)
         for r in ('merge', 'replace') for d in ('delete', 'remove')]


def _o(c, r, d, n=None):
    o = dict(preferred_create=c, preferred_replace=r, preferred_delete=d)
    if n is not None:
        o.update(diff_type='replace', replace_depth=n)
    return o


QUICK = [_o('merge', 'merge', 'delete'), _o('create', 'merge', 'remove'),
         _o('create', 'replace', 'delete'), _o('replace', 'replace', 'remove'),
         _o('merge', 'merge', 'delete', 0), _o('merge', 'replace', 'remove', 1),
         _o('merge', 'merge', 'delete', 1), _o('create', 'replace', 'delete', 2)]


FULL = QUICK + [o for o in FULL if o not in QUICK]


def options(ctx, opts=None):
    """the quick options are a prefix of the full list, so that an index
    means the same in every tier"""
    if opts is None:
        opts = FULL if ctx.tier == 'thorough' else QUICK
    return ctx.pick('options', opts)


def gen(ctx, shape, side, dom=lib.ALNUM, empty=False, lens=None):
    r = lib.root()
    g = lib.Gen(ctx, side, dom=dom, empty=empty, lens=lens)
    shape(g, r)
    return r


def config(env, tree, **kw):
    from ncdiff.config import Config
    return Config(env, lib.to_etree(tree), **kw)


def show(ctx, **kw):
    """readable values in replays"""
    if not ctx.symbolic:
        for k, v in kw.items():
            ctx.note('%s: %s' % (k, v))


def setup():
    return dev.make()
