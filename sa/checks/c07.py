"""C07: the macro context of every RPM parse."""
from ..scn import *
from ..rpmmodel import RpmModel, BASE, LEFT

EXPLANATION = (
    'Abstract interpretation of parsing against a model of librpm\'s macro table (stacked definitions, leftovers above the configuration level '
    'surviving a reload). The table in force at every rpm.spec() call must be exactly the configured macros with the overrides applied in order, '
    'the extra macros after them, and the source directory of the instance last.')
RULE = 'table at rpm.spec() == configured macros (+) overrides in order (None removes) (+) extra macros (+) _sourcedir'
ASSUMPTIONS = ['overrides from a finite list of shapes (repeated names, removal, redefinition of configured and stacked macros, _sourcedir)',
               'the model of librpm: one global table of definition stacks; undefined macros expand to themselves']


def val(n):
    return 'v_' + n


MACROS = [
    lambda: None,
    lambda: [],
    lambda: [('a', val('m1'))],
    lambda: [('a', val('m1')), ('a', val('m2'))],
    lambda: [('a', val('m1')), ('a', None)],
    lambda: [('a', None), ('a', val('m1'))],
    lambda: [('_bindir', None)],
    lambda: [('_bindir', val('m1')), ('b', val('m2'))],
    lambda: [('st', None)],
    lambda: [('st', val('m1'))],
    lambda: [('_sourcedir', '/evil')],
    lambda: [('_sourcedir', None)],
    lambda: [('left_spec', val('m1'))],
    lambda: [('nope', None)],
    lambda: [('dist', '.x'), ('_topdir', '/t'), ('with_x', '1')],
    lambda: [('dist', None), ('name', 'q'), ('a', '')],
    lambda: [('_topdir', '/t'), ('dist', '.y'), ('_topdir', None), ('dist', '.z'), ('b', '%{dist}')],
]
EXTRA = [
    lambda: None,
    lambda: [],
    lambda: [('a', val('x1'))],
    lambda: [('a', None)],
    lambda: [('st', None), ('c', val('x1'))],
    lambda: [('_sourcedir', '/evil2')],
    lambda: [('_bindir', val('x1'))],
    lambda: [('dist', '')],
    lambda: [('dist', None), ('_topdir', '/u')],
]
STACK = {'st': [(-13, 'p'), (-13, 'q')]}


def expected(macros, extra, sd):
    t = {k: v[1] for k, v in BASE.items()}
    t['st'] = 'q'
    for n, v in (macros or []) + (extra or []):
        if v is None:
            t.pop(n, None)
        else:
            t[n] = v
    t['_sourcedir'] = sd
    return t


def compare(I, macros, extra, sd, since, what):
    rpm = I.world.rpm
    if len(rpm.snap) == since:
        raise Violation('no-parse', '%s does not parse the spec file' % what, None, None)
    want = expected(macros, extra, sd)
    for snap in rpm.snap[since:]:
        for k in sorted(set(want) | set(snap)):
            a, b = snap.get(k), want.get(k)
            if (a is None) != (b is None) or a is not None and dom.tri_eq(a, b) is not True:
                raise Violation('context-' + ('leftover' if b is None else 'override' if k != '_sourcedir' else 'sourcedir'),
                                'specfile/spec_parser.py, specfile/macros.py: macro `%s` is wrong in the context of an RPM parse (%s)' % (k, what), None,
                                lambda env: '%r instead of %r; overrides %r, extra macros %r' % (dom.conc(a, env) if a is not None else None, dom.conc(b, env) if b is not None else None,
                                                                                            [(n, v and dom.conc(v, env)) for n, v in macros or []], [(n, v and dom.conc(v, env)) for n, v in extra or []]))


def lst(m):
    return None if m is None else VList(list(m))


def one(I):
    I.world.rpm = RpmModel(stacked=STACK)
    macros = pick(MACROS, 'overrides')()
    sd = pick([None, '/src'], 'source directory')
    s = no_raise(I, 'parse-raises', 'Specfile()', lambda: new_spec(I, ['Name: n', cat('# ', fresh_str('c', LETTER, 1, 1))], macros=lst(macros), sourcedir=sd))
    sdir = sd or '/w'
    compare(I, macros, None, sdir, 0, 'loading')
    extra = pick(EXTRA, 'extra macros')()
    n = len(I.world.rpm.snap)
    if extra is not None:
        no_raise(I, 'parse-raises', 'expand()', lambda: I.call(I.getattr(s, 'expand'), ['%x'], {'extra_macros': lst(extra)}))
        compare(I, macros, extra, sdir, n, 'expansion with extra macros')
        n = len(I.world.rpm.snap)
        no_raise(I, 'parse-raises', 'expand()', lambda: I.call(I.getattr(s, 'expand'), ['%x']))
        compare(I, macros, None, sdir, n, 'expansion after one with extra macros')
        n = len(I.world.rpm.snap)
    I.setattr(s, 'sourcedir', '/moved')
    no_raise(I, 'parse-raises', 'expand()', lambda: I.call(I.getattr(s, 'expand'), ['%x']))
    compare(I, macros, None, '/moved', n, 'expansion after changing the source directory')


def two(I):
    """overrides of one instance never reach the parse of another"""
    I.world.rpm = RpmModel(stacked=STACK)
    ma, mb = pick(MACROS, 'overrides of the first')(), pick(MACROS, 'overrides of the second')()
    s = new_spec(I, ['Name: n'], macros=lst(ma))
    n = len(I.world.rpm.snap)
    t = new_spec(I, ['Name: n'], macros=lst(mb), path='/v/o.spec')
    compare(I, mb, None, '/v', n, 'loading a second spec file')
    n = len(I.world.rpm.snap)
    I.call(I.getattr(s, 'expand'), ['%x'])
    compare(I, ma, None, '/w', n, 'expansion after loading a second spec file')


def reinit(I):
    """Macros.reinit(level) removes exactly the macros above the level"""
    rpm = I.world.rpm = RpmModel(stacked=STACK)
    ml = get(I, 'macros.MacroLevel')
    lv = pick(list(items(I, ml)) + [None], 'level')
    rpm.tab['user'] = [(-1, 'u')]
    I.call(get(I, 'macros.Macros.reinit'), [lv] if lv is not None else [])
    th = int(lv.attrs['_value_']) if lv is not None else -11
    allm = dict(BASE)
    allm.update(LEFT)
    allm['st'] = STACK['st'][-1]
    allm['user'] = (-1, 'u')
    for k, (l, b) in allm.items():
        if (k in rpm.tab and bool(rpm.tab[k])) != (l <= th):
            raise Violation('reinit', 'specfile/macros.py: Macros.reinit(%s) %s macro `%s` of level %d' % (th, 'keeps' if k in rpm.tab else 'removes', k, l), None, lambda env: k)


def define(I):
    """Macros.define/remove: afterwards exactly one / no definition"""
    rpm = I.world.rpm = RpmModel(stacked=STACK)
    n = pick(['a', 'st', '_bindir', 'left_global'], 'macro')
    v = pick([val('v'), 'q', 'p', ''], 'body')
    if cur().pick(2, 'define or remove'):
        I.call(get(I, 'macros.Macros.define'), [n, v])
        if [x[1] for x in rpm.tab.get(n, [])] != [v]:
            raise Violation('define', 'specfile/macros.py: Macros.define() does not leave exactly the new definition', None, lambda env: n)
    else:
        I.call(get(I, 'macros.Macros.remove'), [n])
        if rpm.tab.get(n):
            raise Violation('remove', 'specfile/macros.py: Macros.remove() leaves a definition', None, lambda env: n)


def OBLIGATIONS(tier):
    n = len(MACROS)
    return [Obligation('overrides and extra macros', one, split=n, quick=(60 * n, 60)), Obligation('two instances', two, split=n, quick=(60 * n, 60)),
            Obligation('reinit', reinit), Obligation('define and remove', define)]
