"""C21: a source object reports and changes its own line."""
import ast

import re

from ..scn import *
from .c23 import Spec, h

EXPLANATION = (
    'Abstract interpretation of the attributes of sources and patches, backed by tags and by list entries, over a vocabulary of locations (plain names, '
    'paths, URLs, fragments, macros) compared with a reference derived from the location; of changes of a location or of the comments through the '
    'object, comparing the written lines with the original ones; and of the sequence operations of the views compared with a plain list.')
RULE = ('location, filename, remote, number, number of digits, comments and validity == reference of that line; set location / change comments => exactly that line / '
        'the comment lines above it change; len, in, count, slices, concatenation and iteration == those of the list of locations')
ASSUMPTIONS = ['up to three tags and two list entries', 'expansion maps %{url} to a URL and %{name} to a name']

URL = 'https://example.com/a/b'
# location, its expansion, file name, expanded file name, remote
LOCS = [
    ('foo.tar.gz', 'foo.tar.gz', 'foo.tar.gz', 'foo.tar.gz', False),
    ('https://example.com/foo.tar.gz', None, 'foo.tar.gz', 'foo.tar.gz', True),
    ('https://example.com/', None, '', '', True),
    ('https://example.com/x?a=b#/foo.tar.gz', None, 'foo.tar.gz', 'foo.tar.gz', True),
    ('https://example.com/x/?name=foo.tar.gz', None, 'foo.tar.gz', 'foo.tar.gz', True),
    ('a/b=c/foo=bar', None, 'bar', 'bar', False),
    ('foo=bar.patch', None, 'foo=bar.patch', 'foo=bar.patch', False),
    ('/abs/foo.tar.gz', None, 'foo.tar.gz', 'foo.tar.gz', False),
    ('file:///abs/foo.tar.gz', None, 'foo.tar.gz', 'foo.tar.gz', False),
    ('ftp://h/p/foo', None, 'foo', 'foo', True),
    ('%{url}/%{name}.tar.gz', URL + '/n.tar.gz', '%{name}.tar.gz', 'n.tar.gz', True),
    ('%{url}', URL, '%{url}', 'b', True),
    ('%{name}', 'n', '%{name}', 'n', False),
    ('//example.com/foo', None, 'foo', 'foo', False),
    ('C:foo', None, 'C:foo', 'C:foo', False),
    ('https:foo', None, 'https:foo', 'https:foo', False),
]
STYLES = [('Source0: ', 0, 1), ('Source: ', 0, 0), ('SOURCE7:  ', 7, 1), ('Source007: ', 7, 3), ('source10:', 10, 1), ('Source00: ', 0, 2)]


def expand(I, s):
    if not isinstance(s, str):
        return s
    s = s.replace('%{expr:0}', '0').replace('%{expr:1}', '1')
    return s.replace('%{url}', URL).replace('%{name}', 'n')


def texts(I, comments):
    return [I.getattr(c, 'text') for c in items(I, comments)]


def reading(I):
    I.world.expand = expand
    kind = pick(['Source', 'Patch'], 'kind')
    loc, exp, fn, efn, remote = pick(LOCS, 'location')
    exp = exp or loc
    c = cat('c', h())
    note = pick([[], [cat('# ', c)], ['# other', '', cat('#', c)]], 'comments')
    where = pick(['tag', 'list'], 'place')
    if where == 'tag':
        st, num, digits = pick(STYLES, 'style')
        cond = pick([[], ['%if 1'], ['%if 0']], 'condition')
        lines = ['Name: n'] + cond + note + [st.replace('Source', kind).replace('SOURCE', kind.upper()).replace('source', kind.lower()) + loc] + (['%endif'] if cond else [])
        s = Spec(kind, lines, pick([[], [['x']]], 'lists'))
        valid = cond != ['%if 0']
    else:
        st = pick([['Source3: '], [], ['Source5: ', 'Source2: '], ['Source9: ', 'Source3: ', 'Source: ']], 'tags before')
        lines = ['Name: n'] + [x.replace('Source', kind) + 'q%d' % i for i, x in enumerate(st)]
        s = Spec(kind, lines, [note + [loc], ['y']])
        num, digits, valid = [0, 4, 3, 5][len(st)], None, True
    show = lambda env: repr(conc_lines(s.text(), env))
    v = s.view(I)[0]
    x = I.getitem(v, 0 if where == 'tag' else len(lines) - 1)
    for a, w in (('location', loc), ('expanded_location', exp), ('filename', fn), ('expanded_filename', efn), ('number', num), ('number_digits', digits), ('remote', remote), ('valid', valid)):
        if w is None:
            continue
        g = no_raise(I, 'raises', 'reading ' + a, lambda: I.getattr(x, a), show)
        g = I.truth(g) if isinstance(w, bool) else g
        if isinstance(g, (Opq, Noop)):
            raise Imprecise('attribute')
        if not I.eq(g, w):
            raise Violation('attribute-' + a, 'specfile/sources.py: %s of a source is %r instead of %r' % (a, g, w), None, show)
    same_lines(texts(I, I.getattr(x, 'comments')), [c] if note else [], 'attribute-comments', 'specfile/sources.py: comments of a source')


def model(kind):
    n = pick([0, 1, 2], 'tags')
    ls = pick([[], [1], [1, 1]], 'lists')
    lines, lists, locs = ['Name: n'], [], []
    for i in range(n):
        locs.append(cat('t%d' % i, h()))
        lines += ['# c%d' % i] * (i == 1) + [cat('%s%d:\t' % (kind, 3 * i), locs[-1])]
    lines.append('License: l')
    for j, k in enumerate(ls):
        lists.append([])
        for i in range(k):
            locs.append(cat('l%d%d' % (j, i), h()))
            lists[-1] += ['# d'] * (j == 1) + [locs[-1]]
    return Spec(kind, lines, lists), locs


def setting(I):
    identity_expand(I)
    kind = pick(['Source', 'Patch'], 'kind')
    s, locs = model(kind)
    if not locs:
        raise Infeasible('no source')
    lines = s.text()
    i = pick(list(range(len(locs))), 'source')
    op = pick(['location', 'append comment', 'extend comments', 'clear comments', 'set comment'], 'change')
    new = cat('z', h('new'))
    old = locs[i]
    at = [j for j, l in enumerate(lines) if _ends(l, old)]
    if len(at) != 1:
        raise Imprecise('position')
    at = at[0]
    has = at > 0 and isinstance(lines[at - 1], str) and lines[at - 1].startswith('# ')
    want = list(lines)

    def do(v):
        x = I.getitem(v, i)
        cs = I.getattr(x, 'comments')
        if op == 'location':
            I.setattr(x, 'location', new)
        elif op == 'append comment':
            I.call(I.getattr(cs, 'append'), [new])
        elif op == 'extend comments':
            I.call(I.getattr(cs, 'extend'), [VList([new, 'two'])])
        elif op == 'clear comments':
            I.call(I.getattr(cs, 'clear'), [])
        elif has:
            I.call(I.getattr(cs, '__setitem__'), [0, new])
    if op == 'location':
        pre = lines[at]
        want[at] = _swap(pre, old, new)
    elif op == 'append comment':
        want.insert(at, cat('# ', new))
    elif op == 'extend comments':
        want[at:at] = [cat('# ', new), '# two']
    elif op == 'clear comments':
        if has:
            del want[at - 1]
    elif has:
        want[at - 1] = cat('# ', new)
    no_raise(I, 'raises', op, lambda: s.use(I, do), show_lines(lines))
    same_lines(s.text(), want, 'set-' + op.replace(' ', '-'), 'specfile/sources.py: changing the %s of a source changes something else' % op)


def _lead(l):
    return l if isinstance(l, str) else dom.norm(l.parts)[0] if isinstance(dom.norm(l.parts)[0], str) else ''


def _tok(loc):
    return re.match(r'[tl]\d+', _lead(loc)).group(0)


def _ends(l, old):
    return _tok(old) in _lead(l)


def _swap(line, old, new):
    t = _lead(line)
    return cat(t[:t.index(_tok(old))], new)


def sequence(I):
    identity_expand(I)
    kind = pick(['Source', 'Patch'], 'kind')
    s, locs = model(kind)
    dup = cur().pick(2, 'equal locations') and len(locs) > 1
    if dup:
        i, j = 0, len(locs) - 1
        old = locs[j]
        s.lines = [_swap(l, old, locs[i]) if _ends(l, old) else l for l in s.lines]
        s.lists = [[locs[i] if _ends(l, old) else l for l in x] for x in s.lists]
        locs[j] = locs[i]
    lines = s.text()
    show = show_lines(lines)
    v = s.view(I)[0]
    n = len(locs)
    loc = lambda xs: [I.getattr(x, 'location') for x in items(I, xs)]
    op = pick(['len', 'contains', 'count', 'slice', 'add', 'iterate', 'negative'], 'operation')
    bad = lambda what: Violation('sequence-' + op, 'specfile/sources.py: %s' % what, None, show)
    if op == 'len':
        if I.call(I.builtins['len'], [v]) != n:
            raise bad('length of the view')
    elif op == 'contains':
        for x in locs:
            if not I.truth(I.call(I.getattr(v, '__contains__'), [x])):
                raise bad('a location is not found')
        if I.truth(I.call(I.getattr(v, '__contains__'), ['zzz'])):
            raise bad('a location that does not exist is found')
    elif op == 'count':
        for x in locs + ['zzz']:
            w = sum(1 for y in locs if dom.tri_eq(x, y) is True)
            if I.call(I.getattr(v, 'count'), [x]) != w:
                raise bad('number of sources with a location')
    elif op == 'slice':
        a, b, c = pick([(None, None, None), (1, None, None), (None, -1, None), (None, None, -1), (0, 1, None), (5, 9, None)], 'slice')
        got = loc(I.getitem(v, I.call(I.builtins['slice'], [a, b, c])))
        same_lines(got, locs[a:b:c], 'sequence-slice', 'specfile/sources.py: slice of the view')
    elif op == 'add':
        o = s.view(I)[0]
        what = pick(['view', 'list', 'source'], 'operand') if n else 'view'
        if what == 'view':
            got, want = I.binop(ast.Add(), v, o), locs + locs
        elif what == 'list':
            got, want = I.binop(ast.Add(), v, VList(items(I, o)[:1])), locs + locs[:1]
        else:
            got, want = I.binop(ast.Add(), v, I.getitem(o, n - 1)), locs + locs[-1:]
        same_lines(loc(got), want, 'sequence-add', 'specfile/sources.py: concatenation of views')
        same_lines(loc(v), locs, 'sequence-add', 'specfile/sources.py: concatenation changes the view')
    elif op == 'iterate':
        same_lines(loc(v), locs, 'sequence-iterate', 'specfile/sources.py: iteration')
    else:
        for i in range(-n, n):
            same_text(I.getattr(I.getitem(v, i), 'location'), locs[i], 'sequence-negative', 'specfile/sources.py: index %d' % i)
    same_lines(s.text(), lines, 'sequence-read', 'specfile/sources.py: reading changes lines')


def OBLIGATIONS(tier):
    return [Obligation('attributes', reading, split=(2, len(LOCS)), quick=(20000, 40), thorough=(60000, 200)),
            Obligation('changes through a source', setting, split=(2, 3), quick=(6000, 40), thorough=(60000, 200)),
            Obligation('sequence operations', sequence, split=(2, 3), quick=(6000, 40), thorough=(60000, 200))]
