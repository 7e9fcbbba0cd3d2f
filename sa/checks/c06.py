"""C06: everything that involves macro expansion reflects the current state of
the spec file it is asked of."""
from ..scn import *
from ..rpmmodel import RpmModel, BASE
from .c04 import leave

EXPLANATION = (
    'Abstract interpretation of histories (load, change, query) against a model of librpm\'s process-wide macro context in which parsing a spec '
    'file defines a token identifying the parsed content. The token seen by each query must identify the current content of the queried instance, '
    'and the macro overrides and source directory in force at that parse must be the current ones.')
RULE = 'the macro context seen by a query was established by parsing the current content of this instance with its current overrides and source directory'
ASSUMPTIONS = ['histories: at most two changes between queries, two instances', 'the librpm model keeps one global macro table, as librpm does']

OTHER = '/w/o.spec'


def h(n):
    return fresh_str(n, LETTER, 1, 1)


def body():
    return ['Name: n', 'Version: %{specdef}', 'Release: %{specdef}', 'Source0: %{specdef}', cat('# ', h('c')), '%description', cat('d', h('d')), '%sourcelist', '%{specdef}', '%patchlist', '%{specdef}']


def q_expand(I, s):
    return I.call(I.getattr(s, 'expand'), ['%{specdef}'])


def q_extra(I, s):
    return I.call(I.getattr(s, 'expand'), ['%{specdef}'], {'extra_macros': VList([('q', '1')])})


def q_extra_skip(I, s):
    return I.call(I.getattr(s, 'expand'), ['%{specdef}'], {'extra_macros': VList([]), 'skip_parsing': True})


def q_rpm_spec(I, s):
    o = I.getattr(s, 'rpm_spec')
    if not isinstance(o, VObj) or '_nr' not in o.attrs:
        raise Violation('rpm-spec', 'rpm_spec is not the parsed spec file', None, None)
    return 'c%d' % o.attrs['_nr']


def q_active(I, s):
    for m in items(I, I.call(I.getattr(s, 'get_active_macros'), [])):
        if I.truth(I.eq(I.getattr(m, 'name'), 'specdef')):
            return I.getattr(m, 'body')
    return None


def q_tainted(I, s):
    I.getattr(s, 'tainted')
    return last(I)


def last(I):
    st = I.world.rpm.tab.get('specdef')
    return st[-1][1] if st else None


def q_version(I, s):
    return I.getattr(s, 'expanded_version')


def q_raw_release(I, s):
    return I.getattr(s, 'expanded_raw_release')


def q_release(I, s):
    return I.getattr(s, 'expanded_release')


def q_tag(I, s):
    return I.getattr(I.getattr(I.getattr(I.call(I.getattr(s, 'tags'), []), 'content'), 'version'), 'expanded_value')


def q_source(I, s):
    v = I.getattr(I.call(I.getattr(s, 'sources'), []), 'content')
    return I.getattr(I.call(I.getattr(v, '__getitem__'), [0]), 'expanded_location')


def q_filename(I, s):
    v = I.getattr(I.call(I.getattr(s, 'sources'), []), 'content')
    return I.getattr(I.call(I.getattr(v, '__getitem__'), [1]), 'expanded_filename')


def q_patch(I, s):
    v = I.getattr(I.call(I.getattr(s, 'patches'), []), 'content')
    return I.getattr(I.call(I.getattr(v, '__getitem__'), [0]), 'expanded_location')


def q_parsed(I, s):
    I.getattr(s, 'parsed_sections')
    return last(I)


def q_view(n):
    def f(I, s):
        leave(I, I.call(I.getattr(s, n), []), lambda v: None, None)
        return last(I)
    f.__name__ = 'q_view_' + n
    return f


def late(name, f):
    """the answer of an item of a view that was opened before another instance was used"""
    def q(I, s):
        x = f(I, s)
        c_other(I, s)
        return x(I)
    q.__name__ = 'q_late_' + name
    return q


def view(I, s, n, **kw):
    return I.getattr(I.call(I.getattr(s, n), [], kw), 'content')


def attr(*names):
    def f(I, x):
        for n in names:
            x = I.getitem(x, n) if isinstance(n, int) else I.getattr(x, n)
        return x
    return f


def with_new(I, v, m, *a):
    I.call(I.getattr(v, m), list(a))
    return v


def l_list(I, s):
    v = view(I, s, 'sections')
    return lambda I: (I.call(get(I, 'sourcelist.Sourcelist.parse'), [I.getattr(v, 'sourcelist')], {'context': s}), last(I))[1]


LATE = [
    late('tag', lambda I, s: (lambda v: lambda I: attr('version', 'expanded_value')(I, v))(view(I, s, 'tags'))),
    late('source', lambda I, s: (lambda v: lambda I: attr(0, 'expanded_location')(I, v))(view(I, s, 'sources'))),
    late('filename', lambda I, s: (lambda v: lambda I: attr(0, 'expanded_filename')(I, v))(view(I, s, 'sources'))),
    late('listed', lambda I, s: (lambda v: lambda I: attr(1, 'expanded_location')(I, v))(view(I, s, 'sources'))),
    late('patch', lambda I, s: (lambda v: lambda I: attr(0, 'expanded_location')(I, v))(view(I, s, 'patches'))),
    late('inserted', lambda I, s: (lambda v: lambda I: attr(0, 'expanded_location')(I, with_new(I, v, 'insert', 0, '%{specdef}')))(view(I, s, 'sources', allow_duplicates=True))),
    late('appended', lambda I, s: (lambda v: lambda I: attr(-1, 'expanded_location')(I, with_new(I, v, 'append', '%{specdef}')))(view(I, s, 'sources', allow_duplicates=True))),
    late('source list', l_list),
]


QUERIES = [q_expand, q_extra, q_extra_skip, q_rpm_spec, q_active, q_tainted, q_version, q_raw_release, q_release, q_tag, q_source, q_filename, q_patch, q_parsed, q_view('tags'), q_view('macro_definitions')]


def c_none(I, s):
    pass


def c_lines(I, s):
    leave(I, I.call(I.getattr(s, 'lines'), []), lambda v: I.call(I.getattr(v, '__setitem__'), [4, cat('# x', h('x'))]), None)


def c_tag(I, s):
    I.setattr(s, 'name', cat('m', h('m')))


def c_section(I, s):
    leave(I, I.call(I.getattr(s, 'sections'), []), lambda v: I.setattr(I.getattr(v, 'description'), 'data', VList([cat('z', h('z'))])), None)


def c_macro(I, s):
    I.call(I.getattr(I.getattr(s, 'macros'), 'append'), [('z', '1')])


def c_macro_edit(I, s):
    if not items(I, I.getattr(s, 'macros')):
        raise Infeasible('no macros')
    I.call(I.getattr(I.getattr(s, 'macros'), '__setitem__'), [0, ('k', '2')])


def c_macro_none(I, s):
    if not items(I, I.getattr(s, 'macros')):
        raise Infeasible('no macros')
    I.call(I.getattr(I.getattr(s, 'macros'), '__setitem__'), [0, ('k', None)])


def c_sourcedir(I, s):
    I.setattr(s, 'sourcedir', '/other')


def c_reload(I, s):
    e = I.world.lookup(SPEC)
    e[2] = ABytes(cat('Name: r\nVersion: %{specdef}\nRelease: %{specdef}\nSource0: %{specdef}\n# ', h('rr'), '\n%description\nd\n%sourcelist\n%{specdef}\n%patchlist\n%{specdef}'), 'utf8', 'surrogateescape')
    I.call(I.getattr(s, 'reload'), [])


def c_other(I, s):
    """another instance is loaded and queried"""
    t = I.world.other
    if t is None:
        t = I.world.other = new_spec(I, join_lines(['Name: o', cat('# ', h('oo'))]), path=OTHER)
    I.call(I.getattr(t, 'expand'), ['%x'])


def c_extra(I, s):
    I.call(I.getattr(s, 'expand'), ['%x'], {'extra_macros': VList([('k', '9'), ('w', '1')])})


def failing(outcome, expect, name):
    def c(I, s):
        """content whose parsing fails, queried, then changed back"""
        old = {}

        def brk(v):
            old['l'] = I.call(I.getattr(v, '__getitem__'), [4])
            I.call(I.getattr(v, '__setitem__'), [4, '# broken'])

        leave(I, I.call(I.getattr(s, 'lines'), []), brk, None)
        I.world.spec_outcomes = (outcome,)
        try:
            I.call(I.getattr(s, 'expand'), ['%x'])
        except AbsRaise as e:
            if exc_name(e) != expect:
                raise
        else:
            raise Violation('failure-ignored', 'expansion succeeds although the current content cannot be parsed', None, None)
        I.world.spec_outcomes = ('ok',)
        leave(I, I.call(I.getattr(s, 'lines'), []), lambda v: I.call(I.getattr(v, '__setitem__'), [4, old['l']]), None)
    c.__name__ = 'c_' + name
    return c


c_fail = failing('ValueError', 'RPMException', 'fail')
c_interrupt = failing('Interrupt', 'KeyboardInterrupt', 'interrupted parsing')
c_memory = failing('Other', 'MemoryError', 'running out of memory')




def c_macro_undefine(I, s):
    I.call(I.getattr(I.getattr(s, 'macros'), 'append'), [('_bindir', None)])


def c_macro_empty(I, s):
    I.call(I.getattr(I.getattr(s, 'macros'), 'append'), [('z', '')])


def c_macro_clear(I, s):
    I.call(I.getattr(I.getattr(s, 'macros'), 'clear'), [])


def c_macro_swap(I, s):
    I.call(I.getattr(I.getattr(s, 'macros'), 'insert'), [0, ('k', '0')])


def c_blank(I, s):
    leave(I, I.call(I.getattr(s, 'lines'), []), lambda v: I.call(I.getattr(v, '__setitem__'), [4, '']), None)


def c_space(I, s):
    leave(I, I.call(I.getattr(s, 'lines'), []), lambda v: I.call(I.getattr(v, 'append'), [' ']), None)


CHANGES = [c_macro_undefine, c_macro_empty, c_macro_clear, c_macro_swap, c_blank, c_space, c_none, c_lines, c_tag, c_section, c_macro, c_macro_edit, c_macro_none, c_sourcedir, c_reload, c_other, c_extra, c_fail, c_interrupt, c_memory]


def verify(I, s, tok, q, hist):
    rpm = I.world.rpm
    if not isinstance(tok, str) or not tok.startswith('c') or not tok[1:].isdigit():
        raise Violation('no-context', '`%s` does not see the macros of the spec file after %s' % (q, hist), None, lambda env: repr(tok))
    n = int(tok[1:])
    if rpm.contents[n] is None:
        raise Imprecise('content of the temporary file')
    same_text(rpm.contents[n], to_str(I, s), 'stale-content', 'specfile/spec_parser.py, specfile/specfile.py: `%s` does not reflect the current content after %s' % (q, hist))
    want = {'k': None, '_bindir': BASE['_bindir'][1], 'z': None}
    for name, v in items(I, I.getattr(s, 'macros')):
        want[name] = v
    snap = rpm.snap[n]
    for name, v in want.items():
        if q == 'q_extra' and name == 'q':
            continue
        got = snap.get(name)
        if v is None and got is not None or v is not None and (not is_str(got) or dom.tri_eq(got, v) is not True):
            raise Violation('stale-macros', 'specfile/spec_parser.py: `%s` does not use the current macro overrides after %s' % (q, hist), None, lambda env: '%s is %r instead of %r' % (name, got, v))
    if q not in ('q_extra',) and 'w' in snap:
        raise Violation('extra-macros-stick', 'specfile/spec_parser.py: `%s` uses extra macros of an earlier expansion' % q, None, None)
    sd = I.call(I.builtins['str'], [I.getattr(s, 'sourcedir')])
    if dom.tri_eq(snap.get('_sourcedir', ''), sd) is not True:
        raise Violation('stale-sourcedir', 'specfile/spec_parser.py: `%s` does not use the current source directory after %s' % (q, hist), None, lambda env: repr(snap.get('_sourcedir')))


def history(k, queries=QUERIES, changes=None):
    def f(I):
        I.world.rpm = RpmModel(leftovers=False)
        I.world.other = None
        q = pick(queries, 'query')
        hist = [pick(changes or CHANGES, 'change') for _ in range(k)]
        s = new_spec(I, join_lines(body()), macros=VList([('k', '1')]))
        q0 = pick([None, q], 'query first')
        names = ', '.join(x.__name__[2:] for x in hist)
        if q0:
            verify(I, s, q0(I, s), q.__name__, 'loading')
        for c in hist:
            c(I, s)
        t = no_raise(I, 'query-raises', '`%s` after %s' % (q.__name__, names), lambda: q(I, s))
        verify(I, s, t, q.__name__, names)
    return f


# extra macros given to an expansion
EXTRAS = [[('x', '1')], [('x', '2')], [('x', '1'), ('y', '1')], [('x', '2'), ('x', '1')], [('k', '5')], [('k', None)], [('x', '')], []]


def extras(I):
    """the extra macros in force are those of the very call"""
    I.world.rpm = RpmModel(leftovers=False)
    I.world.other = None
    a, b = pick(EXTRAS, 'first'), pick(EXTRAS, 'second')
    s = new_spec(I, join_lines(body()), macros=VList([('k', '1')]))
    q = pick(['expand', 'expanded_release', 'expand without extra macros'], 'last query')
    for e in (a, b):
        for name in ('x', 'y', 'k'):
            got = I.call(I.getattr(s, 'expand'), ['%%{%s}' % name], {'extra_macros': VList(list(e))})
            want = dict([('k', '1')] + e).get(name)
            show = lambda env: 'extra macros %r, then %r: %s is %r' % (a, b, name, got)
            if got != ('%%{%s}' % name if want is None else want):
                raise Violation('extra-macros', 'specfile/spec_parser.py: an expansion does not use exactly the extra macros it is given', None, show)
    if q == 'expand without extra macros':
        for name in ('x', 'y', 'k'):
            got = I.call(I.getattr(s, 'expand'), ['%%{%s}' % name])
            if got != ('1' if name == 'k' else '%%{%s}' % name):
                raise Violation('extra-macros-stick', 'specfile/spec_parser.py: extra macros stay in force after the expansion they were given to', None, lambda env: '%r' % (b,))


def parsed_hook(I, o):
    o.attrs['parsed'] = '%description\nd\n'


def OBLIGATIONS(tier):
    n = len(QUERIES)
    few = QUERIES if tier != 'quick' else [q_expand, q_extra_skip, q_rpm_spec, q_active, q_tainted, q_version, q_release, q_source]
    hooks = {'spec_object': parsed_hook}
    return [Obligation('items asked later', history(1, LATE), split=len(LATE), quick=(60 * n, 60), hooks=hooks), Obligation('extra macros', extras, split=len(EXTRAS), quick=(400, 60)), Obligation('one change', history(1), split=n, quick=(60 * n, 60), hooks=hooks), Obligation('two changes', history(2, few, CHANGES if tier != 'quick' else [c for c in CHANGES if c not in (c_section, c_blank, c_space, c_macro_empty, c_macro_swap, c_macro_edit)]), split=len(few), quick=(400 * n, 90), hooks=hooks)]
