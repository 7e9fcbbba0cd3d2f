"""C16: failures of RPM surface as RPMException with RPM's messages."""
from ..scn import *

EXPLANATION = (
    'Abstract interpretation of loading, querying and expanding with the outcome of every call into librpm left open (partitioned). Whatever escapes to the '
    'caller must be an RPMException carrying the lines captured during a librpm call that failed on that path, nothing may escape on paths where '
    'librpm did not fail, and a failure that is not covered by forced parsing must not be swallowed. The text of the exception is compared with a reference.')
RULE = ('escape => RPMException with .stderr == lines printed by the failed call; parse failed and not forced, or last parse failed => escape; '
        'no failed call => no escape; str(exception) == text of the first error line, else all lines; views are readable while RPM cannot parse or expand')
ASSUMPTIONS = ['at most three parses per operation', 'librpm fails by raising ValueError (parse), rpm.error or UnicodeEncodeError (expansion)']

DUMP = b'======================== active 0 empty 0\n'
ESPEC = [b'warning: w\n', b'error: /tmp/x: line 3: Unknown tag: \xff foo\n', b'error: query of specfile failed\n']
EEXP = [b'error: Too many levels of recursion in macro expansion.\n']


MSGS = [(ESPEC, EEXP), ([], []), ([b'warning: w\n', b'more\n'], [b'warning: x\n', b'error: y\n', b'z\n'])]


def fail(key, msg, show=None):
    raise Violation(key, msg, None, show)


def prepare(I):
    """stderr of the call of librpm that ran last"""
    w = I.world
    w.espec, w.eexp = pick(MSGS, 'messages')

    def lines(I):
        for e in reversed(w.events):
            if e[0] == 'expandMacro':
                if isinstance(e[1], str) and e[1] == '%dump':
                    return [DUMP]
                return list(w.eexp)
            if e[0] == 'spec':
                return list(w.espec)
        return []
    I.hooks['stderr_lines'] = lines


def done(I):
    I.hooks.pop('stderr_lines', None)
    I.hooks.pop('spec_object', None)


def check_exc(I, e, want, what, show=None):
    if not any(c.name == 'RPMException' for c in e.exc.cls.mro):
        fail('other-error', '%s: an RPM failure surfaces as %s' % (what, exc_name(e)), show)
    err = I.getattr(e.exc, 'stderr')
    got = [x for x in items(I, err)]
    if any(not isinstance(x, bytes) for x in got):
        raise Imprecise('captured lines')
    if got != want:
        fail('messages', '%s: the exception carries %r instead of the messages printed by RPM' % (what, got), show)


CONTENTS = {
    'plain': lambda: ['Name: n', 'Version: 1', '%description', cat('d', fresh_str('h', LETTER, 1, 1))],
    'include at the end': lambda: ['Name: n', '%include /d/src/x\\'],
    'include': lambda: ['Name: n', '%include /d/src/x.inc', '%description'],
    'include elsewhere': lambda: ['Name: n', '%include /nonexistent/x.inc', '%description'],
    'include nothing': lambda: ['Name: n', '%include ', '%description'],
    'load': lambda: ['Name: n', '%{load:/d/src/m.inc}', '%description'],
    'unterminated': lambda: ['Name: n', 'Version: %{a', '%{load:/d/src/m.inc}', '%description'],
    'unterminated shell': lambda: ['Name: n', 'Group: %(cat %{SOURCE0}', '%description'],
    'shell': lambda: ['Name: n', 'Group: %(cat %{SOURCE0})', 'Source0: s', '%description'],
    'unterminated load': lambda: ['Name: n', '%{load:/d/src/m.inc', '%description'],
}


def expand_sources(I, s):
    if isinstance(s, str):
        if s in ('%{SOURCE0}', '%SOURCE0'):
            return '/d/src/s'
        if s.startswith('%('):
            return ''
    return s


def parses(I, since):
    """[(succeeded)] of the rpm.spec() calls since then"""
    out = []
    for e in I.world.events[since:]:
        if e[0] == 'spec':
            out.append(True)
        elif e[0] == 'spec-failed':
            out[-1] = False
    return out


def judge(I, e, since, forced, what, show=None):
    ps = parses(I, since)
    if e is None:
        if not ps:
            fail('no-parse', '%s succeeds without a parse' % what, show)
        if not ps[-1]:
            fail('swallowed', '%s succeeds although RPM failed to parse the spec file' % what, show)
        if not ps[0] and not forced:
            fail('swallowed', '%s succeeds although RPM failed to parse the spec file and parsing is not forced' % what, show)
        return
    check_exc(I, e, I.world.espec, what, show)
    if all(ps):
        fail('spurious', '%s raises %s although RPM did not fail' % (what, exc_name(e)), show)


def attempt(fn):
    try:
        fn()
    except AbsRaise as e:
        return e
    return None


def load(kind, samefile_fault=False):
    def f(I):
        try:
            prepare(I)
            w = I.world
            w.KINDS = ('absent', 'file')
            for p in ('/d/src', '/d', '/nonexistent', '/', '/w', '.'):
                w.fs.append([p, 'dir', None])
            w.expand = expand_sources
            w.spec_outcomes = ('ok', 'ValueError')
            if samefile_fault:
                w.faults, w.fault_sites = 1, {'samefile'}
            forced = bool(cur().pick(2, 'force_parse'))
            I.hooks['spec_object'] = lambda I, o: o.attrs.__setitem__('sources', VList([('s.gz', 0, 1)]))
            lines = CONTENTS[kind]()
            put_file(I, SPEC, join_lines(lines))
            e = attempt(lambda: I.call(get(I, 'specfile.Specfile'), [SPEC], {'sourcedir': '/d/src', 'force_parse': forced}))
            judge(I, e, 0, forced, 'loading a spec file%s' % (' with force_parse' if forced else ''), show_lines(lines))
        finally:
            done(I)
    return f


def forced_later(I):
    """forced parsing switched on or off after loading"""
    try:
        prepare(I)
        w = I.world
        w.KINDS = ('absent',)
        for p in ('/d/src', '/d', '/', '/w', '.'):
            w.fs.append([p, 'dir', None])
        w.expand = expand_sources
        w.spec_outcomes = ('ok',)
        a, b = bool(cur().pick(2, 'force_parse')), bool(cur().pick(2, 'force_parse later'))
        lines = CONTENTS['include']()
        put_file(I, SPEC, join_lines(lines))
        s = I.call(get(I, 'specfile.Specfile'), [SPEC], {'sourcedir': '/d/src', 'force_parse': a})
        if I.getattr(s, 'force_parse') is not a:
            fail('force-parse', 'force_parse of a spec file is not the one given', show_lines(lines))
        I.setattr(s, 'force_parse', b)
        if I.getattr(s, 'force_parse') is not b:
            fail('force-parse', 'force_parse of a spec file is not the one set', show_lines(lines))
        w.spec_outcomes = ('ok', 'ValueError')
        since = len(w.events)
        with_view(I, I.call(I.getattr(s, 'lines'), []), lambda v: I.call(I.getattr(v, 'append'), ['new']))
        e = attempt(lambda: I.call(I.getattr(s, 'expand'), ['x']))
        show = lambda env: 'force_parse %s, then %s' % (a, b)
        judge(I, e, since, b, 'expanding after changing force_parse', show)
        ps = parses(I, since)
        if b and not ps[0] and len(ps) < 2:
            fail('not-forced', 'forced parsing switched on after loading has no effect', show)
    finally:
        done(I)


def forced_off(I):
    """a result that was forced is not used any more once forcing is switched off"""
    try:
        prepare(I)
        w = I.world
        w.KINDS = ('absent',)
        for p in ('/d/src', '/d', '/', '/w', '.'):
            w.fs.append([p, 'dir', None])
        w.expand = expand_sources
        w.spec_outcomes = ('ok', 'ValueError')
        lines = CONTENTS['include']()
        put_file(I, SPEC, join_lines(lines))
        show = show_lines(lines)
        s = []
        e = attempt(lambda: s.append(I.call(get(I, 'specfile.Specfile'), [SPEC], {'sourcedir': '/d/src', 'force_parse': True})))
        if e is not None or parses(I, 0)[0]:
            raise Infeasible('nothing was forced')
        I.setattr(s[0], 'force_parse', False)
        w.spec_outcomes = ('ValueError',)
        name, q = pick(sorted((k, QUERIES[k]) for k in ('expand()', 'rpm_spec', 'tainted', 'get_active_macros()')), 'query')
        e = attempt(lambda: q(I, s[0]))
        if e is None:
            fail('swallowed', '%s succeeds after forced parsing was switched off although RPM fails to parse the spec file' % name, show)
        if exc_name(e) != 'RPMException':
            fail('kind', '%s raises %s after forced parsing was switched off' % (name, exc_name(e)), show)
    finally:
        done(I)


BODY = ['%global rel 1', 'Name: %{nam}', 'Version: %{ver}', 'Release: %{rel}', 'Source0: %{src}', 'Patch0: %{pat}', '%description', 'd', '%prep', '%setup -q', '%sourcelist', '%{b}', '%changelog', '* Mon Jan 01 2024 A <a@b> - 1-1', '- x']


def acc(name):
    def f(I, s):
        return I.getattr(I.call(I.getattr(s, name), []), 'content')
    return f


QUERIES = {
    'expand()': lambda I, s: I.call(I.getattr(s, 'expand'), ['%{x}']),
    'expand() with extra macros': lambda I, s: I.call(I.getattr(s, 'expand'), ['%{x}'], {'extra_macros': VList([('q', '1')])}),
    'rpm_spec': lambda I, s: I.getattr(s, 'rpm_spec'),
    'parsed_sections': lambda I, s: I.getattr(s, 'parsed_sections'),
    'tainted': lambda I, s: I.getattr(s, 'tainted'),
    'get_active_macros()': lambda I, s: I.call(I.getattr(s, 'get_active_macros'), []),
    'expanded_version': lambda I, s: I.getattr(s, 'expanded_version'),
    'expanded_release': lambda I, s: I.getattr(s, 'expanded_release'),
    'expanded_raw_release': lambda I, s: I.getattr(s, 'expanded_raw_release'),
    'expanded_name': lambda I, s: I.getattr(s, 'expanded_name'),
    'Tag.expanded_value': lambda I, s: I.getattr(I.getattr(acc('tags')(I, s), 'version'), 'expanded_value'),
    'Source.expanded_location': lambda I, s: I.getattr(I.call(I.getattr(acc('sources')(I, s), '__getitem__'), [0]), 'expanded_location'),
    'Source.expanded_filename': lambda I, s: I.getattr(I.call(I.getattr(acc('sources')(I, s), '__getitem__'), [1]), 'expanded_filename'),
    'Patch.expanded_location': lambda I, s: I.getattr(I.call(I.getattr(acc('patches')(I, s), '__getitem__'), [0]), 'expanded_location'),
    'add_changelog_entry()': lambda I, s: I.call(I.getattr(s, 'add_changelog_entry'), ['- y'], {'author': 'A', 'email': 'a@b'}),
    'update_value()': lambda I, s: I.call(I.getattr(s, 'update_value'), ['%{rel}', '2', 4]),
}
VIEWS = ['lines', 'sections', 'tags', 'macro_definitions', 'sources', 'patches', 'prep', 'changelog']
ATTRS = ['name', 'version', 'release', 'raw_release', 'has_autorelease']


def loaded(I, lines=BODY):
    w = I.world
    w.fs.append(['/w', 'dir', None])
    I.hooks['spec_object'] = lambda I, o: o.attrs.update(parsed='Name: n\n%description\nd\n')
    w.expand = lambda I, s: {'%{rel}': '1'}.get(s, s) if isinstance(s, str) else s
    return new_spec(I, list(lines))


def change(I, s):
    with_view(I, I.call(I.getattr(s, 'lines'), []), lambda v: I.call(I.getattr(v, 'insert'), [7, cat('x', fresh_str('n', LETTER, 1, 1))]))


def query(name):
    """the content no longer parses"""
    def f(I):
        try:
            prepare(I)
            w = I.world
            s = loaded(I)
            change(I, s)
            k = len(w.events)
            w.spec_outcomes = ('ValueError',)
            e = attempt(lambda: QUERIES[name](I, s))
            if e is None:
                fail('swallowed', '%s does not report that RPM cannot parse the spec file' % name)
            check_exc(I, e, I.world.espec, name)
            # and again: a failed parse is not taken for a good one
            e = attempt(lambda: QUERIES[name](I, s))
            if e is None:
                fail('swallowed', '%s reports that RPM cannot parse the spec file only once' % name)
            check_exc(I, e, I.world.espec, name)
            w.spec_outcomes = ('ok',)
            e = attempt(lambda: QUERIES[name](I, s))
            if e is not None:
                fail('spurious', '%s raises %s although RPM can parse the spec file again' % (name, exc_name(e)))
        finally:
            done(I)
    return f


def query_expansion(name):
    """parsing works, expanding fails"""
    def f(I):
        try:
            prepare(I)
            w = I.world
            s = loaded(I)
            if cur().pick(2, 'content changed'):
                change(I, s)
            n, last = [0], [0]

            def bad(I, x):
                if isinstance(x, str) and x.startswith('%{') and x not in ('%{_sourcedir}', '%{q}', '%{dist}'):
                    r = cur().pick(3, 'outcome of expansion')
                    last[0] = r
                    if r:
                        n[0] += 1
                        if r == 1:
                            raise AbsRaise(I.call(I.load_module('rpm').attrs['error'], ['error expanding macro']))
                        I.raise_('UnicodeEncodeError', 'surrogates')
                return '%{_sourcedir}' if x == '%{_sourcedir}' else x
            w.expand = bad
            e = attempt(lambda: QUERIES[name](I, s))
            if e is None:
                if last[0] and name in ('expand()', 'expand() with extra macros', 'expanded_release', 'expanded_raw_release', 'expanded_version', 'expanded_name', 'Tag.expanded_value', 'Source.expanded_location', 'Source.expanded_filename', 'Patch.expanded_location'):
                    fail('swallowed', '%s does not report a failed expansion' % name)
                return
            if not n[0]:
                fail('spurious', '%s raises %s although RPM did not fail' % (name, exc_name(e)))
            check_exc(I, e, I.world.eexp, name)
        finally:
            done(I)
    return f


def removal_failure(I):
    """a macro that cannot be removed"""
    try:
        prepare(I)
        w = I.world
        w.expand_outcomes = ('error',)
        e = attempt(lambda: I.call(get(I, 'macros.Macros.remove'), ['m']))
        if e is None:
            fail('removal', 'specfile/macros.py: Macros.remove() succeeds although the macro is still defined')
        if not any(c.name == 'MacroRemovalException' for c in e.exc.cls.mro):
            fail('removal', 'specfile/macros.py: Macros.remove() raises %s for a macro that cannot be removed' % exc_name(e))
    finally:
        done(I)


def expand_static(I):
    try:
        prepare(I)
        w = I.world
        o = pick([None, 'error', 'UnicodeEncodeError'], 'outcome')
        if o:
            w.expand_outcomes = (o,)
        else:
            w.expand = lambda I, s: cat('<', s, '>')
        x = cat('%{', fresh_str('h', LETTER, 1, 1), '}')
        res = []
        e = attempt(lambda: res.append(I.call(get(I, 'macros.Macros.expand'), [x])))
        if e is None:
            if o:
                fail('swallowed', 'specfile/macros.py: Macros.expand() does not report a failed expansion')
            same_text(res[0], cat('<', x, '>'), 'expansion', 'specfile/macros.py: Macros.expand() does not return what RPM returned')
            return
        if not o:
            fail('spurious', 'specfile/macros.py: Macros.expand() raises %s although RPM did not fail' % exc_name(e))
        check_exc(I, e, I.world.eexp, 'Macros.expand()')
    finally:
        done(I)


def view_broken(mode):
    def f(I):
        try:
            prepare(I)
            w = I.world
            lines = list(BODY)
            kind = pick(['plain', 'condition', 'macro section'], 'content')
            if kind == 'condition':
                lines[4:4] = ['%if %{x}', 'Epoch: 1', '%else', 'Epoch: 2', '%endif']
            elif kind == 'macro section':
                lines += ['%{?x:%package y}', 'Summary: s', '%files %{y}', 'z']
            s = loaded(I, lines)
            change(I, s)
            if mode == 'parse':
                w.spec_outcomes = ('ValueError',)
            else:
                old = w.expand

                def bad(I, x):
                    if isinstance(x, str) and ('%{x}' in x or '%{?x' in x or '%{y}' in x):
                        raise AbsRaise(I.call(I.load_module('rpm').attrs['error'], ['error expanding macro']))
                    return old(I, x)
                w.expand = bad
            k = cur().pick(len(VIEWS) + len(ATTRS), 'what')
            if k < len(VIEWS):
                name = '%s()' % VIEWS[k]
                e = attempt(lambda: with_view(I, I.call(I.getattr(s, VIEWS[k]), []), lambda v: items(I, v) if VIEWS[k] in ('lines', 'sections', 'tags', 'macro_definitions') else None))
            else:
                name = ATTRS[k - len(VIEWS)]
                e = attempt(lambda: I.getattr(s, name))
            if e is not None:
                fail('unreadable', '%s raises %s while RPM cannot %s' % (name, exc_name(e), 'parse the spec file' if mode == 'parse' else 'expand a macro'), show_lines(lines))
        finally:
            done(I)
    return f


ERR_LINES = [
    ([], '\n'),
    ([b'error: a\n'], 'a'),
    ([b'error:\n'], ''),
    ([b'error:   a b  \n'], 'a b'),
    ([b'error: a error: b\n'], 'a error: b'),
    ([b'warning: w\n', b'error: a\n', b'error: b\n'], 'a'),
    ([b'warning: w\n', b'  more\n'], '\nwarning: w\n  more\n'),
    ([b'warning: error: w\n'], '\nwarning: error: w\n'),
    ([b'error: \xc3\xa1\n'], '\u00e1'),
    ([b'error: \xff\n'], '\udcff'),
    ([b'warning: \xff\n'], '\nwarning: \udcff\n'),
    ([b'no newline'], '\nno newline'),
]


def exc_text(I):
    ls, want = pick(ERR_LINES, 'messages')
    e = I.call(get(I, 'exceptions.RPMException'), [VList(list(ls))])
    got = no_raise(I, 'text', 'str(RPMException)', lambda: to_str(I, e), lambda env: repr(ls))
    same_text(got, want, 'text', 'specfile/exceptions.py: the text of an RPMException for %r is wrong' % ls)


def hierarchy(I):
    for n in ('RPMException', 'MacroRemovalException', 'OptionsException', 'UnterminatedMacroException', 'DuplicateSourceException', 'SourceNumberException'):
        c = get(I, 'exceptions.' + n)
        if not any(x.name == 'SpecfileException' for x in c.mro):
            fail('hierarchy', 'specfile/exceptions.py: %s is not a SpecfileException' % n)
        if any(x.name in ('ValueError', 'OSError', 'RuntimeError', 'LookupError') for x in c.mro):
            fail('hierarchy', 'specfile/exceptions.py: %s is also a builtin error' % n)


def OBLIGATIONS(tier):
    q = (4000, 60)
    out = []
    for k in CONTENTS:
        out.append(Obligation('load: %s' % k, load(k), quick=q))
    for k in ('include elsewhere', 'load', 'shell'):
        out.append(Obligation('load, directory missing: %s' % k, load(k, True), quick=q))
    for k in QUERIES:
        out.append(Obligation('unparsable content: %s' % k, query(k), quick=q))
        if k not in ('tainted', 'rpm_spec', 'parsed_sections', 'get_active_macros()'):
            out.append(Obligation('failing expansion: %s' % k, query_expansion(k), quick=q))
    for m in ('parse', 'expansion'):
        out.append(Obligation('views while RPM fails: %s' % m, view_broken(m), split=3, quick=q))
    out.append(Obligation('forced parsing switched later', forced_later, quick=q))
    out.append(Obligation('forced parsing switched off', forced_off, quick=q))
    out.append(Obligation('Macros.expand', expand_static, quick=q))
    out.append(Obligation('Macros.remove', removal_failure, quick=q))
    out.append(Obligation('text of the exception', exc_text, quick=q))
    out.append(Obligation('exception classes', hierarchy, quick=q))
    return out
