"""C28: items and views compare equal exactly when they hold the same text."""
import ast

from ..scn import *
from .c10 import sect
from .c23 import Spec

EXPLANATION = (
    'Abstract interpretation of the comparison of items (tags, comments, macro definitions, source list entries, changelog entries, %prep macros, sections, sources, parts of values) '
    'and of views of them, over all pairs of a vocabulary of texts in which each pair differs in one part, with free characters.')
RULE = 'parse(x) == parse(y) <=> x == y, != is the negation, and comparing with an object of another kind is False and never an error'
ASSUMPTIONS = ['texts from a finite list with a free character each', 'only differences in the parts listed (sections compare by content alone, preceding blank lines of tags and the white space of options do not count)']


def h(n='h'):
    return fresh_str(n, LETTER, 1, 1)


def tags(I, ls):
    return I.call(get(I, 'tags.Tags.parse'), [sect(I, 'package', ls)])


def first(view):
    return lambda I, ls: I.getitem(view(I, ls), 0)


def mds(I, ls):
    return I.call(get(I, 'macro_definitions.MacroDefinitions.parse'), [VList(list(ls))])


def sl(I, ls):
    return I.call(get(I, 'sourcelist.Sourcelist.parse'), [sect(I, 'sourcelist', ls)])


def cl(I, ls):
    return I.call(get(I, 'changelog.Changelog.parse'), [sect(I, 'changelog', ls)])


def prep(I, ls):
    return I.call(get(I, 'prep.Prep.parse'), [sect(I, 'prep', ls)])


def pm(I, ls):
    return I.getitem(I.getattr(prep(I, ls), 'macros'), 0)


def secs(I, ls):
    return I.call(get(I, 'sections.Sections.parse'), [VList(list(ls))])


def sources(I, ls):
    return Spec('Source', [l for l in ls if not isinstance(l, tuple)], [list(l) for l in ls if isinstance(l, tuple)]).view(I)[0]


def value(I, ls):
    return I.call(get(I, 'value_parser.ValueParser.parse'), [ls[0]])


KINDS = {
    'tag': (first(tags), lambda c: [['Name: a' + c], ['Name: b' + c], ['Version: a' + c], ['Name:  a' + c], ['# x', 'Name: a' + c], ['# y', 'Name: a' + c], ['# x', '# y', 'Name: a' + c], ['#x', 'Name: a' + c], ['#  x', 'Name: a' + c], ['name: a' + c], ['Name: a' + c + ' ']]),
    'tags': (tags, lambda c: [['Name: a' + c], ['Name: b' + c], ['Name: a' + c, 'Version: 1'], ['Version: 1', 'Name: a' + c]]),
    'comment': (lambda I, ls: I.getitem(I.getattr(I.getitem(tags(I, ls + ['Name: n']), 0), 'comments'), 0), lambda c: [['# ' + c], ['#' + c], ['# x' + c], ['  # ' + c]]),
    'macro definition': (first(mds), lambda c: [['%global a x' + c], ['%define a x' + c], ['%global b x' + c], ['%global a y' + c], ['%global  a x' + c], ['%global a  x' + c], ['#global a x' + c], ['%dnl %global a x' + c], [' %global a x' + c], ['%global a() x' + c]]),
    'macro definitions': (mds, lambda c: [['%global a x' + c], ['y', '%global a x' + c], ['%global a x' + c, '%global b y'], []]),
    'source list entry': (first(sl), lambda c: [['a' + c], ['b' + c], ['# x', 'a' + c], ['# y', 'a' + c], ['#x', 'a' + c], [' # x', 'a' + c]]),
    'changelog entry': (first(cl), lambda c: [['* Mon Jan 01 2024 a', '- ' + c], ['* Mon Jan 01 2024 b', '- ' + c], ['* Mon Jan 01 2024 a', '- x' + c], ['* Mon Jan 01 2024 a', '- ' + c, '- e'], ['* Mon Jan 01 2024 a', '- ' + c, ''], ['* Mon Jan 01 2024 a', '- ' + c, '', '']]),
    'changelog': (cl, lambda c: [['* Mon Jan 01 2024 a', '- ' + c], ['* Mon Jan 01 2024 a', '- ' + c, '* Sun Dec 31 2023 b', '- ' + c], ['* Mon Jan 01 2024 a', '- x' + c]]),
    '%prep macro': (pm, lambda c: [['%setup -n ' + c], ['%setup -n x' + c], ['%autosetup -n ' + c], ['%setup -q -n ' + c], ['x', '%setup -n ' + c], ['y', '%setup -n ' + c],
                                  ['%{?x:%setup -n ' + c + '}'], ['%{?y:%setup -n ' + c + '}'], ['%{!?x:%setup -n ' + c + '}'], ['%{?x: %setup -n ' + c + '}'], ['%setup -n ' + c + ' -c'], ['%setup -n ' + c + ' -D'],
                                  ['%patch0 -p1'], ['%patch1 -p1'], ['%patch -P0 -p1'], ['%patch -P0 -p2'], ['%patch -p1']]),
    '%prep': (prep, lambda c: [['%setup -n ' + c], ['%setup -n x' + c], ['%setup -n ' + c, '%patch -P 1']]),
    'section': (lambda I, ls: I.getitem(secs(I, ls), 1), lambda c: [['%build', c], ['%build', 'x' + c], ['%build', c, 'y']]),
    'sections': (secs, lambda c: [['%build', c], ['%build', 'x' + c], ['%build', c, '%check'], ['a', '%build', c]]),
    'source': (lambda I, ls: I.getitem(sources(I, ls), 0), lambda c: [['Source0: ' + c], ['Source1: ' + c], ['Source0: x' + c], ['# e', 'Source0: ' + c], [(c,)], [('x' + c,)]]),
    'list source': (lambda I, ls: I.getitem(sources(I, ls), -1), lambda c: [[(c,)], [('x', c)], [('y', 'x', c)], ['Source3: y', (c,)], [('x' + c,)], [('# q', c)]]),
    'sources': (sources, lambda c: [['Source0: ' + c], ['Source1: ' + c], ['Source0: ' + c, 'Source1: x'], ['Source0: ' + c, ('x',)], [('x' + c,)]]),
    'value': (value, lambda c: [[c], ['x' + c], ['%' + 'm' + c], ['%{m' + c + '}'], ['%{?m' + c + '}'], ['%{!?m' + c + '}'], ['%{?m' + c + ':a}'], ['%{?m' + c + ':b}'], ['%{!?m' + c + ':a}'], ['%{?n' + c + ':a}'], ['%(m' + c + ')'], ['%[k' + c + ']'],
                                ['%{m' + c + ' a}'], ['%{m' + c + ' b}'], ['%{n' + c + '}'], ['%?m' + c], ['%{expr:m' + c + '}'], ['%{lua:m' + c + '}'], ['%{expr:n' + c + '}'], ['%(n' + c + ')'], ['%n' + c], ['a%{m' + c + '}'], ['%{m' + c + '}a']]),
}


def fill(ls, c):
    """put the free character in place of the mark"""
    def one(s):
        if isinstance(s, tuple):
            return tuple(one(x) for x in s)
        if MARK not in s:
            return s
        a, _, b = s.partition(MARK)
        return cat(*[x for x in (a, c, b) if not (isinstance(x, str) and not x)])
    return [one(s) for s in ls]


MARK = '\uf8ff'


def pair(kind):
    make, vocab = KINDS[kind]
    n = len(vocab('x'))

    def f(I):
        identity_expand(I)
        i, j = cur().pick(n, 'left'), cur().pick(n, 'right')
        c = 'q' if 'definition' in kind else h()     # lookbehinds: no free character
        vs = [fill(x, c) for x in vocab(MARK)]
        show = lambda env: '%s %d and %d: %r' % (kind, i, j, [[dom.conc(q, env) if not isinstance(q, tuple) else [dom.conc(r, env) for r in q] for q in vs[k]] for k in (i, j)])
        x = no_raise(I, 'raises', 'parsing', lambda: make(I, vs[i]), show)
        y = no_raise(I, 'raises', 'parsing', lambda: make(I, vs[j]), show)

        def eq(a, b):
            return no_raise(I, 'raises', 'comparing two objects of the kind ' + kind, lambda: I.truth(I.compare(ast.Eq(), a, b)), show)
        r = eq(x, y)
        if r != (i == j):
            raise Violation('equality', 'specfile: %s' % ('two objects of the kind %s with the same text are unequal' % kind if i == j else 'two objects of the kind %s with different text are equal' % kind), None, show)
        ne = no_raise(I, 'raises', 'comparing', lambda: I.truth(I.compare(ast.NotEq(), x, y)), show)
        if ne == r:
            raise Violation('inequality', 'specfile: != of two objects of the kind %s is not the negation of ==' % kind, None, show)
        if i == j and kind != 'value':
            for other in (None, 5, 'x', I.call(I.builtins['object'], [])):
                if eq(x, other):
                    raise Violation('other-kind', 'specfile: an object of the kind %s equals something else' % kind, None, show)
    return f


def OBLIGATIONS(tier):
    return [Obligation(k, pair(k), split=len(KINDS[k][1]('x')), quick=(1500, 40)) for k in KINDS]
