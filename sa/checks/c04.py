"""C04: changes made through a view reach the spec file content on every exit."""
from ..scn import *

EXPLANATION = (
    'Abstract interpretation of every accessor over a spec file with free text: the view is entered, one item is changed to a fresh symbolic '
    'marker, and the with-block is left normally, by an Exception or by a BaseException. The resulting content must provably be the old content '
    'with exactly the changed item replaced, the exception must propagate, and with autosave the file must equal the content.')
RULE = 'after leaving a view: content == old content with the change applied; exception propagates; autosave => file == content, else file untouched'
ASSUMPTIONS = ['spec file of 27 lines with free holes; one change per view; nested and sequential combinations of two views',
               'librpm is modelled as an opaque partner whose macro expansion returns its argument']


def h(n, m=LETTER):
    return fresh_str(n, m, 1, 1)


def body():
    return ['Name: n', cat('Version: ', h('v')), cat('Release: ', h('r')), '%global m b', cat('Source0: ', h('s'), 's'), cat('Patch0: ', h('p'), 'p'), '',
            '%description', cat('d', h('d')), '', '%package x', cat('Summary: ', h('q')), '%prep', '%setup -q', '%sourcelist', cat(h('sl'), '1'), '%patchlist', cat(h('pl'), '2'),
            '%changelog', cat('* ', h('ch'), ' - 1'), cat('- ', h('ce')), '%sourcelist', cat(h('sm'), '3'), '%patchlist', cat(h('pm'), '4'), '%package y', cat('Summary: ', h('qq'))]


def at(I, v, i):
    return I.call(I.getattr(v, '__getitem__'), [i])


def st(I, v, *path):
    for p in path[:-1]:
        v = at(I, v, p) if isinstance(p, int) else I.getattr(v, p)
    return v


# (name, open view, change, line index, expected line as a function of the marker)
def VIEWS():
    def tag(n):
        return lambda I, v, m: I.setattr(I.getattr(v, n), 'value', m)

    def line(i):
        return lambda I, v, m: I.call(I.getattr(v, '__setitem__'), [i, m])

    def loc(i):
        return lambda I, v, m: I.setattr(at(I, v, i), 'location', m)

    def setloc(i):
        return lambda I, v, m: I.call(I.getattr(v, '__setitem__'), [i, m])

    def opt(I, v, m):
        I.setattr(I.getattr(at(I, v, 0), 'options'), 'n', m)

    def prep_opt(I, v, m):
        I.setattr(I.getattr(I.getattr(v, 'setup'), 'options'), 'n', m)
    o = lambda n, *a: (lambda I, s: I.call(I.getattr(s, n), list(a)))
    out = [
        ('lines', o('lines'), line(8), 8, lambda m: m),
        ('macro_definitions', o('macro_definitions'), lambda I, v, m: I.setattr(at(I, v, 0), 'body', m), 3, lambda m: cat('%global m ', m)),
        ('sections', o('sections'), lambda I, v, m: I.call(I.getattr(at(I, v, 1), '__setitem__'), [0, m]), 8, lambda m: m),
        ('sections by name', o('sections'), lambda I, v, m: I.call(I.getattr(I.getattr(v, 'prep'), '__setitem__'), [0, m]), 13, lambda m: m),
        ('sections data', o('sections'), lambda I, v, m: I.setattr(I.getattr(v, 'sourcelist'), 'data', VList([m])), 15, lambda m: m),
        ('tags', o('tags'), tag('version'), 1, lambda m: cat('Version: ', m)),
        ('tags set', o('tags'), lambda I, v, m: I.setattr(v, 'release', m), 2, lambda m: cat('Release: ', m)),
        ('changelog', o('changelog'), lambda I, v, m: I.call(I.getattr(I.getattr(at(I, v, 0), 'content'), '__setitem__'), [0, m]), 20, lambda m: m),
        ('changelog header', o('changelog'), lambda I, v, m: I.setattr(at(I, v, 0), 'header', cat('* ', m)), 19, lambda m: cat('* ', m)),
        ('prep', o('prep'), prep_opt, 13, lambda m: cat('%setup -q -n ', m)),
        ('sources tag', o('sources'), loc(0), 4, lambda m: cat('Source0: ', m)),
        ('sources list', o('sources'), loc(1), 15, lambda m: m),
        ('sources set', o('sources'), setloc(1), 15, lambda m: m),
        ('patches tag', o('patches'), setloc(0), 5, lambda m: cat('Patch0: ', m)),
        ('patches list', o('patches'), loc(1), 17, lambda m: m),
        ('sources second list', o('sources'), loc(2), 22, lambda m: m),
        ('patches second list', o('patches'), setloc(2), 24, lambda m: m),
        ('tags other', o('tags', 'package y'), tag('summary'), 26, lambda m: cat('Summary: ', m)),
    ]
    return out


EXITS = [None, 'RuntimeError', 'KeyboardInterrupt', 'StopIteration']


def leave(I, cm, change, exc):
    e = with_view(I, cm, change, exc)
    if exc is None:
        if e is not None:
            raise Violation('exit-raises', 'leaving a view raises %s' % exc_name(e), None, None)
    elif e is None:
        raise Violation('exception-swallowed', 'an exception raised inside a view (%s) does not propagate' % exc, None, None)
    elif exc_name(e) != exc:
        raise Violation('exception-replaced', 'an exception raised inside a view (%s) becomes %s' % (exc, exc_name(e)), None, lambda env: str(e))


def final(I, s, want, auto, text0, name):
    same_text(to_str(I, s), join_lines(want), 'change-lost', 'specfile/specfile.py: a change made through `%s` does not reach the content as made' % name)
    same_text(file_text(I, SPEC), join_lines(want) if auto else text0, 'autosave' if auto else 'saved-without-request',
              'specfile/specfile.py: after leaving `%s` the file %s' % (name, 'does not have the content (autosave)' if auto else 'is written although autosave is off'))


def one(I):
    identity_expand(I)
    views = VIEWS()
    name, op, change, i, f = pick(views, 'view')
    exc = pick(EXITS, 'exit')
    auto = cur().pick(2, 'autosave') == 1
    lines = body()
    text = join_lines(lines)
    s = new_spec(I, text, autosave=auto)
    m = fresh_str('M', LETTER, 2, 2)
    leave(I, op(I, s), lambda v: change(I, v, m), exc)
    want = list(lines)
    want[i] = f(m)
    final(I, s, want, auto, text, name)


def subsection(I):
    """views of a given section object, opened inside the sections view"""
    identity_expand(I)
    exc = pick(EXITS[:3], 'exit')
    auto = cur().pick(2, 'autosave') == 1
    which = cur().pick(2, 'accessor')
    how = cur().pick(2, 'keyword')
    lines = body()
    text = join_lines(lines)
    s = new_spec(I, text, autosave=auto)
    m = fresh_str('M', LETTER, 2, 2)

    def change(v):
        sec = at(I, v, 2 if which == 0 else 6)
        acc = I.getattr(s, ('tags', 'changelog')[which])
        cm = I.call(acc, [], {'section': sec}) if how else I.call(acc, [sec])
        if which == 0:
            leave(I, cm, lambda t: I.setattr(I.getattr(t, 'summary'), 'value', m), None)
        else:
            leave(I, cm, lambda t: I.setattr(at(I, t, 0), 'content', VList([m])), None)
    leave(I, I.call(I.getattr(s, 'sections'), []), change, exc)
    want = list(lines)
    want[11 if which == 0 else 20] = cat('Summary: ', m) if which == 0 else m
    final(I, s, want, auto, text, 'tags(section)' if which == 0 else 'changelog(section)')


# changes of the number of lines: (name, accessor, change, (index, removed lines, added lines))
def RESIZE():
    o = lambda n, *a: (lambda I, s: I.call(I.getattr(s, n), list(a)))

    def delitem(i):
        return lambda I, v, m: I.call(I.getattr(v, '__delitem__'), [i])

    def app(I, v, m):
        I.call(I.getattr(v, 'append'), [m])
    return [
        ('lines, one removed', o('lines'), delitem(8), 8, 1, lambda m: []),
        ('lines, one added', o('lines'), app, 27, 0, lambda m: [m]),
        ('lines, all replaced', o('lines'), lambda I, v, m: I.call(I.getattr(v, '__setitem__'), [I.call(I.builtins['slice'], [None, None]), VList([m])]), 0, 27, lambda m: [m]),
        ('macro_definitions, one removed', o('macro_definitions'), delitem(0), 3, 1, lambda m: []),
        ('sections, one removed', o('sections'), delitem(2), 10, 2, lambda m: []),
        ('sections, line added', o('sections'), lambda I, v, m: app(I, at(I, v, 3), m), 14, 0, lambda m: [m]),
        ('sections, line removed', o('sections'), lambda I, v, m: delitem(0)(I, at(I, v, 1), m), 8, 1, lambda m: []),
        ('tags, one removed', o('tags'), delitem(1), 1, 1, lambda m: []),
        ('tags by name, one removed', o('tags'), lambda I, v, m: I.call(I.builtins['delattr'], [v, 'release']), 2, 1, lambda m: []),
        ('changelog, one removed', o('changelog'), delitem(0), 19, 2, lambda m: []),
        ('changelog, line added', o('changelog'), lambda I, v, m: app(I, I.getattr(at(I, v, 0), 'content'), m), 21, 0, lambda m: [m]),
        ('prep, macro removed', o('prep'), lambda I, v, m: I.call(I.builtins['delattr'], [v, 'setup']), 13, 1, lambda m: []),
        ('prep, patch macro added', o('prep'), lambda I, v, m: I.call(I.getattr(v, 'add_patch_macro'), [7]), 14, 0, lambda m: ['%patch 7']),
        ('sources, list entry removed', o('sources'), delitem(1), 15, 1, lambda m: []),
        ('sources, list entry added', o('sources'), app, 23, 0, lambda m: [m]),
        ('sources, entry inserted', o('sources'), lambda I, v, m: I.call(I.getattr(v, 'insert'), [2, m]), 22, 0, lambda m: [m]),
        ('patches, list entry removed', o('patches'), delitem(2), 24, 1, lambda m: []),
        ('patches, tag removed', o('patches'), delitem(0), 5, 1, lambda m: []),
    ]


def resize(I):
    identity_expand(I)
    name, op, change, i, removed, added = pick(RESIZE(), 'view')
    exc = pick(EXITS[:3], 'exit')
    auto = cur().pick(2, 'autosave') == 1
    lines = body()
    text = join_lines(lines)
    s = new_spec(I, text, autosave=auto)
    m = cat('Z', fresh_str('M', LETTER, 1, 1))
    leave(I, op(I, s), lambda v: change(I, v, m), exc)
    want = list(lines)
    want[i:i + removed] = added(m)
    final(I, s, want, auto, text, name)


def inlines(I):
    """a view opened and left inside the view of lines, which is changed before or after"""
    identity_expand(I)
    views = VIEWS()
    b = pick(views, 'inner view')
    when = pick(['before', 'after', 'both'], 'change of the lines')
    if b[0] == 'lines':
        raise Infeasible('same view')
    auto = cur().pick(2, 'autosave') == 1
    lines = body()
    text = join_lines(lines)
    s = new_spec(I, text, autosave=auto)
    m, n = fresh_str('M', LETTER, 2, 2), fresh_str('N', LETTER, 2, 2)
    want = list(lines)

    def outer(v):
        if when != 'after':
            I.call(I.getattr(v, '__setitem__'), [8, m])
        leave(I, b[1](I, s), lambda w: b[2](I, w, n), None)
        want[b[3]] = b[4](n)
        if when != 'before':
            I.call(I.getattr(v, 'append'), [m])
    if when != 'after':
        if b[3] == 8:
            raise Infeasible('same line')
        want[8] = m
    leave(I, I.call(I.getattr(s, 'lines'), []), outer, None)
    if when != 'before':
        want.append(m)
    final(I, s, want, auto, text, 'lines and %s' % b[0])


def pairs(nested):
    def f(I):
        identity_expand(I)
        views = VIEWS()
        a = pick(views, 'first view')
        b = pick(views, 'second view')
        if a[3] == b[3]:
            raise Infeasible('same line')
        if nested and (not compatible(a[0], b[0])):
            raise Infeasible('views of overlapping text')
        lines = body()
        text = join_lines(lines)
        auto = cur().pick(2, 'autosave') == 1
        s = new_spec(I, text, autosave=auto)
        m, n = fresh_str('M', LETTER, 2, 2), fresh_str('N', LETTER, 2, 2)
        if nested:
            def outer(v):
                leave(I, b[1](I, s), lambda w: b[2](I, w, n), None)
                a[2](I, v, m)
            leave(I, a[1](I, s), outer, None)
        else:
            leave(I, a[1](I, s), lambda v: a[2](I, v, m), None)
            leave(I, b[1](I, s), lambda v: b[2](I, v, n), None)
        want = list(lines)
        want[a[3]] = a[4](m)
        want[b[3]] = b[4](n)
        final(I, s, want, auto, text, '%s and %s' % (a[0], b[0]))
    return f


def base(n):
    return n.split(' ')[0]


def compatible(outer, inner):
    """which views may be open together without overwriting each other by design:
    the ones that share parents (sections and views of different sections)"""
    o, i = base(outer), base(inner)
    if o == i:
        return True
    fam = {'tags', 'changelog', 'prep', 'sources', 'patches'}
    if o == 'sections' and i in fam:
        return True
    return o in fam and i in fam and {o, i} != {'prep', 'x'}


PROPSET = [('version', 1, 'Version: '), ('raw_release', 2, 'Release: '), ('release', 2, 'Release: '), ('name', 0, 'Name: ')]


def props(I):
    identity_expand(I)
    p, i, pre = pick(PROPSET, 'property')
    auto = cur().pick(2, 'autosave') == 1
    lines = body()
    text = join_lines(lines)
    s = new_spec(I, text, autosave=auto)
    m = fresh_str('M', LETTER, 2, 2)
    I.setattr(s, p, m)
    want = list(lines)
    want[i] = cat(pre, m)
    final(I, s, want, auto, text, p)
    same_text(I.getattr(s, p), m, 'readback', 'a value assigned to `%s` is not read back' % p)


def setvr(I):
    identity_expand(I)
    auto = cur().pick(2, 'autosave') == 1
    inside = cur().pick(2, 'inside an open view')
    lines = body()
    text = join_lines(lines)
    s = new_spec(I, text, autosave=auto)
    m, n = fresh_str('M', LETTER, 2, 2), fresh_str('N', LETTER, 2, 2)
    act = lambda v=None: I.call(I.getattr(s, 'set_version_and_release'), [m, n])
    if inside:
        leave(I, I.call(I.getattr(s, 'sections'), []), act, None)
    else:
        act()
    want = list(lines)
    want[1], want[2] = cat('Version: ', m), cat('Release: ', n)
    final(I, s, want, auto, text, 'set_version_and_release')


def OBLIGATIONS(tier):
    n = len(VIEWS())
    return [Obligation('one view', one, split=n, quick=(20 * n, 60)), Obligation('view of a section', subsection, quick=(400, 60)),
            Obligation('changes of the number of lines', resize, split=len(RESIZE()), quick=(600, 60)), Obligation('views inside the view of lines', inlines, split=n, quick=(20 * n, 60)),
            Obligation('two views in sequence', pairs(False), split=n, quick=(100 * n, 60)), Obligation('nested views', pairs(True), split=n, quick=(100 * n, 60)),
            Obligation('properties', props), Obligation('version and release', setvr)]
