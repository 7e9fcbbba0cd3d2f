"""C12: operations that are refused raise the documented error and change nothing."""
from ..scn import *
from .c04 import at
from .c23 import STYLES, LISTS, Spec, build, read

EXPLANATION = (
    'Abstract interpretation of every kind of refused operation over spec files with free text: the exception must be an instance of the documented '
    'class and the content, the file and the view must provably be what they were. The same operations with the obstacle removed must be accepted.')
RULE = 'refusal => documented exception class, content and file unchanged, view unchanged; no refusal => accepted'
ASSUMPTIONS = ['spec file of 15 lines with free holes; source styles as in C23']


def h(n='h'):
    return fresh_str(n, LETTER, 1, 1)


def attempt(fn):
    try:
        fn()
    except AbsRaise as e:
        return e
    return None


def refused(e, cls, what, show=None):
    if e is None:
        raise Violation('not-refused', '%s is not refused' % what, None, show)
    if not any(c.name == cls for c in e.exc.cls.mro):
        raise Violation('wrong-error', '%s raises %s instead of %s' % (what, exc_name(e), cls), None, show)


DSTYLES = [STYLES[i] for i in (0, 1, 2, 4, 5, 6, 7, 12)]
DLISTS = [[], [[]], [['l0', 'l1']], [['l0'], ['m0']]]


def duplicates(I):
    """sources and patches"""
    identity_expand(I)
    kind = pick(['Source', 'Patch'], 'kind')
    s, locs, style, nl = build(kind, DSTYLES, DLISTS)
    lines = s.text()
    n = len(locs)
    op = pick(['insert', 'append', 'insert_numbered'], 'operation')
    dup = pick(['duplicate', 'allowed duplicate', 'new'], 'location')
    if dup != 'new':
        if not n:
            raise Infeasible('empty')
        loc = locs[pick(range(n), 'which')]
    else:
        loc = cat('z', h())
    i = pick(sorted({0, n}), 'position') if op == 'insert' else 3
    if dup == 'allowed duplicate':
        s.kw = {'allow_duplicates': True}

    def do(v):
        I.call(I.getattr(v, op), [i, loc] if op != 'append' else [loc])
    what = 'specfile/sources.py: %s() of %s' % (op, {'new': 'a new location', 'duplicate': 'a location that is already there', 'allowed duplicate': 'a location that is already there, with duplicates allowed,'}[dup])
    if dup == 'duplicate':
        v, tags, ll = s.view(I)
        e = attempt(lambda: do(v))
        refused(e, 'DuplicateSourceException', what, show_lines(lines))
        got = list(items(I, I.call(I.getattr(tags, 'get_raw_section_data'), []))) + [x for l in ll for x in ['%list'] + list(items(I, I.call(I.getattr(l, 'get_raw_section_data'), [])))]
        same_lines(got, lines, 'changed', what + ' changes the spec file')
    else:
        no_raise(I, 'refused', what, lambda: s.use(I, do), show_lines(lines))
        after = read(I, s, kind)
        if len(after) != n + 1:
            raise Violation('not-added', what + ' does not add it', None, show_lines(lines))


def body():
    return ['Name: n', cat('Version: ', h('v')), cat('Release: ', h('r')), '%global m b', '%dnl %global mm b', cat('Source0: ', h('s'), 's'), cat('Patch3: ', h('p'), 'p'), '',
            '%prep', '%autosetup -p1', '%sourcelist', cat('s', h('sl')), '%patchlist', cat('p', h('pl')),
            '%changelog', cat('* ', h('ch'), ' - 1'), cat('- ', h('ce'))]


# name, expected class, action(I, spec, lines)
def view(name, f, *a):
    def g(I, s, lines):
        cm = I.call(I.getattr(s, name), list(a))
        e = with_view(I, cm, lambda v: f(I, v, lines))
        if e is not None:
            raise e
    return g


REFUSALS = [
    ('add_patch() of an existing location', 'DuplicateSourceException', lambda I, s, l: I.call(I.getattr(s, 'add_patch'), [l[13]])),
    ('add_patch() of an existing location with a number', 'DuplicateSourceException', lambda I, s, l: I.call(I.getattr(s, 'add_patch'), [l[13]], {'number': 9})),
    ('add_patch() with a lower number', 'SourceNumberException', lambda I, s, l: I.call(I.getattr(s, 'add_patch'), ['new'], {'number': 2})),
    ('add_patch() with an existing number', 'SourceNumberException', lambda I, s, l: I.call(I.getattr(s, 'add_patch'), ['new'], {'number': 3, 'comment': 'c'})),
    ('add_patch() with the number of a patch list entry', 'SourceNumberException', lambda I, s, l: I.call(I.getattr(s, 'add_patch'), ['new'], {'number': 4})),
    ('sources.append() of an existing location', 'DuplicateSourceException', view('sources', lambda I, v, l: I.call(I.getattr(v, 'append'), [l[11]]))),
    ('patches.insert() of an existing location', 'DuplicateSourceException', view('patches', lambda I, v, l: I.call(I.getattr(v, 'insert'), [0, l[13]]))),
    ('patches.insert_numbered() of an existing location', 'DuplicateSourceException', view('patches', lambda I, v, l: I.call(I.getattr(v, 'insert_numbered'), [7, l[13]]))),
    ('setting a tag that does not exist', 'AttributeError', lambda I, s, l: I.setattr(s, 'url', h())),
    ('setting the license that does not exist', 'AttributeError', lambda I, s, l: I.setattr(s, 'license', h())),
    ('update_tag() of a tag that does not exist', 'AttributeError', lambda I, s, l: I.call(I.getattr(s, 'update_tag'), ['URL', h()])),
    ('update_version() with a pattern without a group', 'SpecfileException', lambda I, s, l: I.call(I.getattr(s, 'update_version'), ['1rc1', 'rc\\d+'])),
    ('update_version() with a pattern without a group and a pre-release suffix macro', 'SpecfileException', lambda I, s, l: I.call(I.getattr(s, 'update_version'), ['1rc1', 'rc\\d+'], {'prerelease_suffix_macro': 'mm'})),
    ('deleting a tag that does not exist', 'AttributeError', view('tags', lambda I, v, l: I.delattr(v, 'url'))),
    ('getting a tag that does not exist', 'ValueError', view('tags', lambda I, v, l: I.call(I.getattr(v, 'get'), ['url']))),
    ('deleting a section that does not exist', 'AttributeError', view('sections', lambda I, v, l: I.delattr(v, 'build'))),
    ('getting a section that does not exist', 'ValueError', view('sections', lambda I, v, l: I.call(I.getattr(v, 'get'), ['build']))),
    ('deleting a macro definition that does not exist', 'AttributeError', view('macro_definitions', lambda I, v, l: I.delattr(v, 'nosuch'))),
    ('getting a macro definition that does not exist', 'ValueError', view('macro_definitions', lambda I, v, l: I.call(I.getattr(v, 'get'), ['nosuch']))),
    ('deleting a %prep macro that does not exist', 'AttributeError', view('prep', lambda I, v, l: I.delattr(v, 'setup'))),
    ('tags of a section that does not exist', 'AttributeError', view('tags', lambda I, v, l: None, 'build')),
    ('sources beyond the end', 'IndexError', view('sources', lambda I, v, l: at(I, v, 2))),
    ('deleting a source beyond the end', 'IndexError', view('sources', lambda I, v, l: I.call(I.getattr(v, '__delitem__'), [2]))),
    ('setting a source beyond the end', 'IndexError', view('sources', lambda I, v, l: I.call(I.getattr(v, '__setitem__'), [-3, 'x']))),
    ('deleting a tag beyond the end', 'IndexError', view('tags', lambda I, v, l: I.call(I.getattr(v, '__delitem__'), [5]))),
    ('deleting a tag before the beginning', 'IndexError', view('tags', lambda I, v, l: I.call(I.getattr(v, '__delitem__'), [-6]))),
    ('deleting a macro definition beyond the end', 'IndexError', view('macro_definitions', lambda I, v, l: I.call(I.getattr(v, '__delitem__'), [2]))),
    ('deleting a changelog entry beyond the end', 'IndexError', view('changelog', lambda I, v, l: I.call(I.getattr(v, '__delitem__'), [1]))),
    ('giving a flag an argument', 'OptionsException', view('prep', lambda I, v, l: I.setattr(I.getattr(I.getattr(v, 'autosetup'), 'options'), 'v', 'x'))),
    ('giving a flag a number', 'OptionsException', view('prep', lambda I, v, l: I.setattr(I.getattr(I.getattr(v, 'autosetup'), 'options'), 'c', 1))),
    ('setting an option with an argument to True', 'OptionsException', view('prep', lambda I, v, l: I.setattr(I.getattr(I.getattr(v, 'autosetup'), 'options'), 'p', True))),
    ('setting an option with an argument to False', 'OptionsException', view('prep', lambda I, v, l: I.setattr(I.getattr(I.getattr(v, 'autosetup'), 'options'), 'n', False))),
    ('add_changelog_entry() without an author', 'SpecfileException', lambda I, s, l: no_author(I, s)),
]


def no_author(I, s):
    m = I.modules['specfile.specfile'].attrs
    if 'guess_packager' not in m:
        raise Imprecise('guess_packager is elsewhere')
    saved = m['guess_packager']
    m['guess_packager'] = I.builtins['str']
    try:
        I.call(I.getattr(s, 'add_changelog_entry'), [pick(['x', VList(['x'])], 'entry')], {})
    finally:
        m['guess_packager'] = saved


def spec_level(I):
    identity_expand(I)
    name, cls, act = pick(REFUSALS, 'operation')
    auto = cur().pick(2, 'autosave') == 1
    lines = body()
    text = join_lines(lines)
    s = new_spec(I, text, autosave=auto)
    e = attempt(lambda: act(I, s, lines))
    refused(e, cls, name, show_lines(lines))
    same_text(to_str(I, s), text, 'changed', '%s is refused but changes the content' % name)
    same_text(file_text(I, SPEC), text, 'changed', '%s is refused but changes the file' % name)
    # the instance is still usable
    m = cat('M', h())
    no_raise(I, 'unusable', 'setting the version after %s was refused' % name, lambda: I.setattr(s, 'version', m), show_lines(lines))
    want = list(lines)
    want[1] = cat('Version: ', m)
    same_text(to_str(I, s), join_lines(want), 'unusable', 'a change after %s was refused is lost' % name)


ACCEPTED = [
    ('add_patch() of a new location', lambda I, s, m: I.call(I.getattr(s, 'add_patch'), [m]), lambda m: cat('Patch0005: ', m)),
    ('add_patch() with a higher number', lambda I, s, m: I.call(I.getattr(s, 'add_patch'), [m], {'number': 5}), None),
]


def names(I):
    """invalid names are refused by constructors, valid ones accepted"""
    which = pick(['Tag', 'Section'], 'class')
    if which == 'Tag':
        n = pick(['', 'Foo', 'xName', ' Name', 'Nam', 'Requ', cat('x', h(), 'name'), 'Name', 'SOURCE0', 'patch', 'requires(post)', 'BuildRequires', 'autoreqprov', 'Summary'], 'name')
        bad = not isinstance(n, str) or n in ('', 'Foo', 'xName', ' Name', 'Nam', 'Requ')
        f = lambda: I.call(get(I, 'tags.Tag'), [n, 'v', ': ', I.call(get(I, 'tags.Comments'), [])])
    else:
        n = pick(['', 'foo', 'package ', 'x', '%prep', 'changelog2', cat('q', h()), 'package', 'PREP', 'Changelog', 'files', 'sourcelist', 'verifyscript'], 'name')
        bad = not isinstance(n, str) or n in ('', 'foo', 'package ', 'x', '%prep', 'changelog2')
        f = lambda: I.call(get(I, 'sections.Section'), [n])
    e = attempt(f)
    what = '%s with the name %r' % (which, n)
    if bad:
        refused(e, 'ValueError', 'creating a ' + what)
    elif e is not None:
        raise Violation('refused', 'creating a %s is refused (%s)' % (what, exc_name(e)), None, None)


def missing_file(I):
    """loading a file that does not exist creates nothing and fails"""
    w = I.world
    w.fs.append(['/w/missing.spec', 'absent', None])
    how = pick(['str', 'Path'], 'path type')
    p = '/w/missing.spec'
    if how == 'Path':
        p = I.call(I.modules['specfile.specfile'].attrs['Path'], [p]) if 'Path' in I.modules['specfile.specfile'].attrs else p
    e = attempt(lambda: I.call(get(I, 'specfile.Specfile'), [p], {'autosave': pick([False, True], 'autosave'), 'force_parse': pick([False, True], 'force')}))
    refused(e, 'FileNotFoundError', 'loading a file that does not exist')
    x = w.lookup('/w/missing.spec')
    if x is not None and x[1] != 'absent':
        raise Violation('created', 'loading a file that does not exist creates it', None, None)
    if [q for q in w.events if q[0] == 'write']:
        raise Violation('created', 'loading a file that does not exist writes a file', None, None)


def reload_missing(I):
    """reload() of a file that has gone leaves the content alone"""
    identity_expand(I)
    lines = body()
    text = join_lines(lines)
    s = new_spec(I, text)
    I.world.fs.append(['/w/gone.spec', 'absent', None])
    I.setattr(s, 'path', '/w/gone.spec')
    e = attempt(lambda: I.call(I.getattr(s, 'reload'), []))
    refused(e, 'FileNotFoundError', 'reloading a file that does not exist')
    same_text(to_str(I, s), text, 'changed', 'reloading a file that does not exist changes the content')


def patch_numbers(I):
    """a patch number not above all existing ones, in whatever order they are"""
    have = pick([['Patch5: ', 'Patch3: '], ['Patch9: ', 'Patch2: ', 'Patch4: '], ['Patch3: ', 'Patch5: '], ['Patch2: ']], 'patches')
    pl = pick([[], ['l0'], ['l0', 'l1']], 'patch list')
    lines = ['Name: n'] + [cat(x, 't%d' % i, h()) for i, x in enumerate(have)] + ['Version: 1', '%description', cat('d', h())] + (['%patchlist'] + [cat(x, h()) for x in pl] if pl else [])
    nums = [int(x[5:-2]) for x in have]
    top = max(nums + [nums[-1] + len(pl)])
    n = pick(list(range(top + 2)), 'number')
    identity_expand(I)
    text = join_lines(lines)
    s = new_spec(I, text)
    e = attempt(lambda: I.call(I.getattr(s, 'add_patch'), ['new'], {'number': n}))
    if n > top:
        if e is not None:
            raise Violation('refused', 'specfile/specfile.py: add_patch() refuses number %d with %s although it is above all others' % (n, exc_name(e)), None, show_lines(lines))
        return
    refused(e, 'SourceNumberException', 'add_patch() with number %d' % n, show_lines(lines))
    same_text(to_str(I, s), text, 'changed', 'add_patch() is refused but changes the content')


def accepted(I):
    identity_expand(I)
    name, act, want = pick(ACCEPTED, 'operation')
    lines = body()
    s = new_spec(I, lines)
    m = cat('M', h())
    no_raise(I, 'refused', name, lambda: act(I, s, m), show_lines(lines))
    got = I.call(I.getattr(s, 'patches'), [])
    locs = []
    with_view(I, got, lambda v: locs.extend((I.getattr(x, 'location'), I.getattr(x, 'number')) for x in items(I, v)))
    if not any(dom.tri_eq(l, m) is True for l, _ in locs):
        raise Violation('not-added', name + ' does not add it', None, show_lines(lines))


def OBLIGATIONS(tier):
    return [Obligation('duplicate sources', duplicates, split=(2, len(DSTYLES)), quick=(20000, 60)), Obligation('spec file', spec_level, split=len(REFUSALS), quick=(4000, 60)),
            Obligation('names', names), Obligation('missing file', missing_file), Obligation('reload of a missing file', reload_missing), Obligation('accepted', accepted), Obligation('patch numbers', patch_numbers, split=4)]
