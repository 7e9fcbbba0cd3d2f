"""C05: views nest (same object) and are isolated between instances."""
from ..scn import *
from .c04 import body, VIEWS, leave, at

EXPLANATION = (
    'Abstract interpretation of nested, interleaved and repeated uses of every accessor: the object identity of the views and the content after '
    'leaving them is tracked on every path, for one instance, for two instances over equal content and for a copied instance.')
RULE = ('same accessor, same arguments, same instance, still open => the same view object; different instance => a different object and no effect on '
        'the other content; a view opened after leaving the previous one reflects the current content')
ASSUMPTIONS = ['two nesting levels, two instances; views given a section are distinguished only if the sections differ']

ACC = ['lines', 'macro_definitions', 'sections', 'tags', 'changelog', 'prep', 'sources', 'patches']
OTHER = '/w/o.spec'


def op(I, s, n, *a, **k):
    return I.call(I.getattr(s, n), list(a), k)


def enter(I, cm):
    return I.call(I.getattr(cm, '__enter__'), [])


def exit_(I, cm, exc=None):
    if exc is None:
        I.call(I.getattr(cm, '__exit__'), [None, None, None])
        return
    e = I.call(I.builtins[exc], ['x'])
    I.call(I.getattr(cm, '__exit__'), [e.cls, e, None])


def same(I):
    identity_expand(I)
    name, opn, change, i, f = pick(VIEWS(), 'view')
    s = new_spec(I, join_lines(lines := body()))
    exc = pick([None, 'RuntimeError'], 'inner exit')
    when = pick(['in inner', 'after inner', 'before inner'], 'change')
    m = fresh_str('M', LETTER, 2, 2)
    cm = opn(I, s)
    v = enter(I, cm)
    if when == 'before inner':
        change(I, v, m)
    cm2 = opn(I, s)
    w = enter(I, cm2)
    if w is not v:
        raise Violation('nested-view-differs', 'specfile/context_management.py: opening `%s` while it is open gives another object' % name, None, None)
    if when == 'in inner':
        change(I, w, m)
    exit_(I, cm2, exc)
    if when == 'after inner':
        change(I, v, m)
    # a third, again nested
    cm3 = opn(I, s)
    if enter(I, cm3) is not v:
        raise Violation('nested-view-differs', 'specfile/context_management.py: opening `%s` again while it is open gives another object' % name, None, None)
    exit_(I, cm3)
    exit_(I, cm)
    want = list(lines)
    want[i] = f(m)
    same_text(to_str(I, s), join_lines(want), 'nested-change-lost', 'specfile/context_management.py: a change made through nested `%s` views is lost' % name)


def repeated(I):
    """a view opened later reflects the content at that time"""
    identity_expand(I)
    name, opn, change, i, f = pick(VIEWS(), 'view')
    s = new_spec(I, join_lines(lines := body()))
    how = pick(['with', 'content', 'exception', 'unused'], 'first use')
    cm = opn(I, s)
    if how == 'content':
        v = I.getattr(cm, 'content')
    elif how != 'unused':
        v = enter(I, cm)
        exit_(I, cm, 'RuntimeError' if how == 'exception' else None)
    else:
        v = enter(I, cm)
        exit_(I, cm)
    m = fresh_str('M', LETTER, 2, 2)
    by = pick(['lines', 'same'], 'change through')
    if by == 'lines':
        leave(I, op(I, s, 'lines'), lambda l: I.call(I.getattr(l, '__setitem__'), [i, f(m)]), None)
    else:
        leave(I, opn(I, s), lambda w: change(I, w, m), None)
    want = list(lines)
    want[i] = f(m)
    same_text(to_str(I, s), join_lines(want), 'change-lost', 'a change made after an earlier use of `%s` is lost' % name)
    # reading it once more must see the change: write back what it gives
    leave(I, opn(I, s), lambda w: None, None)
    same_text(to_str(I, s), join_lines(want), 'stale-view', 'specfile/context_management.py: `%s` opened after a change does not reflect the current content' % name)
    if name != 'lines':
        n = fresh_str('N', LETTER, 2, 2)
        leave(I, opn(I, s), lambda w: change(I, w, n), None)
        want[i] = f(n)
        same_text(to_str(I, s), join_lines(want), 'stale-view', 'specfile/context_management.py: `%s` opened after a change does not reflect the current content' % name)


def instances(I):
    identity_expand(I)
    name, opn, change, i, f = pick(VIEWS(), 'view')
    nested = pick(['nested', 'sequential', 'interleaved'], 'use')
    lines = body()
    text = join_lines(lines)
    s = new_spec(I, text)
    kind = pick(['same content', 'copy'], 'second instance')
    if kind == 'copy':
        t = I.call(I.getattr(I.load_module('copy'), 'deepcopy'), [s])
    else:
        t = new_spec(I, text, path=OTHER)
    m, n = fresh_str('M', LETTER, 2, 2), fresh_str('N', LETTER, 3, 3)
    if nested == 'nested':
        a = opn(I, s)
        v = enter(I, a)
        b = opn(I, t)
        w = enter(I, b)
        if v is w and v is not None:
            raise Violation('shared-view', 'specfile/context_management.py: two instances share one `%s` view' % name, None, None)
        change(I, w, n)
        exit_(I, b)
        change(I, v, m)
        exit_(I, a)
    elif nested == 'interleaved':
        a = opn(I, s)
        b = opn(I, t)
        v, w = enter(I, a), enter(I, b)
        change(I, v, m)
        change(I, w, n)
        exit_(I, a)
        exit_(I, b)
    else:
        leave(I, opn(I, s), lambda v: change(I, v, m), None)
        same_text(to_str(I, t), text, 'leaks', 'a change through `%s` of one instance changes another instance' % name)
        leave(I, opn(I, t), lambda v: change(I, v, n), None)
    a, b = list(lines), list(lines)
    a[i], b[i] = f(m), f(n)
    same_text(to_str(I, s), join_lines(a), 'leaks', 'specfile/context_management.py: views of `%s` of two instances interfere' % name)
    same_text(to_str(I, t), join_lines(b), 'leaks', 'specfile/context_management.py: views of `%s` of two instances interfere' % name)


def arguments(I):
    """views of different sections are different"""
    identity_expand(I)
    s = new_spec(I, join_lines(lines := body()))
    how = cur().pick(2, 'keyword')
    m, n = fresh_str('M', LETTER, 2, 2), fresh_str('N', LETTER, 2, 2)

    def inner(secs):
        sec = at(I, secs, 2)
        a = op(I, s, 'tags')
        v = enter(I, a)
        b = op(I, s, 'tags', **{'section': sec}) if how else op(I, s, 'tags', sec)
        w = enter(I, b)
        if v is w:
            raise Violation('argument-ignored', 'specfile/context_management.py: tags of two different sections share one view', None, None)
        I.setattr(I.getattr(w, 'summary'), 'value', n)
        I.setattr(I.getattr(v, 'version'), 'value', m)
        exit_(I, b)
        exit_(I, a)
    leave(I, op(I, s, 'sections'), inner, None)
    want = list(lines)
    want[1], want[11] = cat('Version: ', m), cat('Summary: ', n)
    same_text(to_str(I, s), join_lines(want), 'argument-ignored', 'changes through tags of two different sections are not both kept')


# the sections of the spec file: (name as a string, index, line of the tag, name of the tag)
SECS = [('package', 0, 1, 'version'), ('package x', 2, 11, 'summary'), ('package y', 9, 26, 'summary')]


def two_sections(I):
    """tags of two sections, each given by name or as an object, positionally or by keyword, or left out"""
    identity_expand(I)
    s = new_spec(I, join_lines(lines := body()))
    a, b = pick([(0, 1), (1, 2), (2, 1), (1, 0)], 'sections')
    outer = pick([True, False], 'inside the sections view')
    hows = ['name', 'name keyword', 'object', 'object keyword'] if outer else ['name', 'name keyword']
    m, n = fresh_str('M', LETTER, 2, 2), fresh_str('N', LETTER, 2, 2)

    def opened(secs, x, label):
        name, i, _, _ = SECS[x]
        how = pick(hows + (['default'] if x == 0 else []), label)
        if how == 'default':
            return op(I, s, 'tags')
        arg = name if how.startswith('name') else at(I, secs, i)
        return op(I, s, 'tags', section=arg) if how.endswith('keyword') else op(I, s, 'tags', arg)

    def inner(secs):
        ca = opened(secs, a, 'first')
        v = enter(I, ca)
        cb = opened(secs, b, 'second')
        w = enter(I, cb)
        if v is w:
            raise Violation('argument-ignored', 'specfile/context_management.py: tags of two different sections share one view', None, None)
        I.setattr(I.getattr(w, SECS[b][3]), 'value', n)
        I.setattr(I.getattr(v, SECS[a][3]), 'value', m)
        exit_(I, cb)
        exit_(I, ca)
    if outer:
        leave(I, op(I, s, 'sections'), inner, None)
    else:
        inner(None)
    want = list(lines)
    want[SECS[a][2]] = cat(SECS[a][3].capitalize(), ': ', m)
    want[SECS[b][2]] = cat(SECS[b][3].capitalize(), ': ', n)
    same_text(to_str(I, s), join_lines(want), 'argument-ignored', 'changes through tags of two different sections are not both kept')


def same_section(I):
    """the same section given twice in the same way is the same view"""
    identity_expand(I)
    s = new_spec(I, join_lines(lines := body()))
    x = pick([0, 1, 2], 'section')
    how = pick(['name', 'name keyword'], 'how')
    name, i, line, tag = SECS[x]
    args, kw = ([name], {}) if how == 'name' else ([], {'section': name})
    m = fresh_str('M', LETTER, 2, 2)
    ca = op(I, s, 'tags', *args, **kw)
    v = enter(I, ca)
    cb = op(I, s, 'tags', *args, **kw)
    w = enter(I, cb)
    if v is not w:
        raise Violation('nested-view-differs', 'specfile/context_management.py: opening tags of a section while they are open gives another object', None, None)
    I.setattr(I.getattr(w, tag), 'value', m)
    exit_(I, cb)
    exit_(I, ca)
    want = list(lines)
    want[line] = cat(tag.capitalize(), ': ', m)
    same_text(to_str(I, s), join_lines(want), 'nested-change-lost', 'a change through nested views of tags of a section is lost')


KW = [{}, {'allow_duplicates': True}, {'default_to_implicit_numbering': True}, {'default_source_number_digits': 1, 'allow_duplicates': True}, {'default_to_implicit_numbering': True, 'allow_duplicates': True}]


def keywords(I):
    """views opened with different keyword arguments obey their own; the order of keywords does not matter"""
    identity_expand(I)
    s = new_spec(I, join_lines(lines := body()))
    which = pick(['sources', 'patches'], 'view')
    a, b = pick(KW, 'outer'), pick(KW, 'inner')
    ca = op(I, s, which, **a)
    v = enter(I, ca)
    cb = op(I, s, which, **dict(reversed(list(b.items()))))
    w = enter(I, cb)
    if a == b and v is not w:
        raise Violation('nested-view-differs', 'specfile/context_management.py: opening `%s` with the same keyword arguments while it is open gives another object' % which, None, lambda env: repr(a))
    text = I.getattr(at(I, w, 0), 'location')
    try:
        I.call(I.getattr(w, 'append'), [text])
        ok = True
    except AbsRaise as e:
        if e.exc.cls.name != 'DuplicateSourceException':
            raise
        ok = False
    if ok is not bool(b.get('allow_duplicates')):
        raise Violation('argument-ignored', 'specfile/context_management.py: `%s` opened with %r inside one opened with %r %s a duplicate' % (which, b, a, 'accepts' if ok else 'refuses'), None, None)
    exit_(I, cb)
    exit_(I, ca)


def parents(I):
    """a view opened inside the sections view works on the same sections"""
    identity_expand(I)
    which = pick(['tags', 'changelog', 'prep', 'sources', 'patches'], 'view')
    name, opn, change, i, f = [x for x in VIEWS() if x[0].split(' ')[0] == which][0]
    s = new_spec(I, join_lines(lines := body()))
    m = fresh_str('M', LETTER, 2, 2)

    def inner(secs):
        leave(I, opn(I, s), lambda v: change(I, v, m), None)
        # the change is visible in the outer view at once
        out = []
        for sec in items(I, secs):
            out.append(to_str(I, sec))
        want = list(lines)
        want[i] = f(m)
        same_text(cat(*out), join_lines(want), 'inner-change-invisible', 'specfile/specfile.py: a change made through `%s` inside the sections view is not visible in the sections' % which)
    leave(I, op(I, s, 'sections'), inner, None)


def OBLIGATIONS(tier):
    n = len(VIEWS())
    return [Obligation('same view nested', same, split=n, quick=(100 * n, 60)), Obligation('repeated use', repeated, split=n, quick=(100 * n, 60)),
            Obligation('two instances', instances, split=n, quick=(100 * n, 60)), Obligation('section argument', arguments), Obligation('two sections', two_sections, split=4, quick=(400, 60)), Obligation('same section', same_section, split=3), Obligation('keyword arguments', keywords, split=2), Obligation('inside sections', parents)]
