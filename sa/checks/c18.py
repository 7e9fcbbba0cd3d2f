"""C18: updating a tag touches only what it may and gives the requested value."""
import re as _re

from ..scn import *
from .. import specmodel

EXPLANATION = (
    'Abstract interpretation of updating a tag value over spec files whose tag is composed of macros, other tags, conditional macros, shell expansions and literal text, against an independent model of how RPM '
    'reads a preamble. The lines after the update are compared with the original ones, and the updated tag is expanded by the model.')
RULE = ('lines that differ after an update are the tag itself or valid, unprotected definitions before it, without options, that its value refers to (directly or indirectly); '
        'expansion of the updated tag == requested value')
ASSUMPTIONS = ['spec file shapes and values from finite lists, with free characters in the requested value', 'macros that may not be updated are not redefined after the tag', 'only the macro constructs of the model (global, define, dnl, conditions, %{..}, %(echo), expr)']


def h(n='h', m=LETTER):
    return fresh_str(n, m, 1, 1)


BASE = {k: v[1] for k, v in specmodel.BASE.items()}
DIGIT = cmask('123456789')

DEFS = {
    'parts': ['%global major 1', '%global minor 2', '%global micro 3'],
    'define': ['%define major 1', '%define minor 2', '%define micro 3'],
    'derived': ['%global major 1', '%global minor 2', '%global micro 3', '%global ver %{major}.%{minor}'],
    'lazy derived': ['%define ver %{major}.%{minor}', '%global major 1', '%global minor 2'],
    'inactive': ['%global major 1', '%if 0', '%global minor 9', '%else', '%global minor 2', '%endif', '%global micro 3'],
    'inactive first': ['%if 1', '%global major 1', '%global minor 2', '%else', '%global major 8', '%endif'],
    'redefined': ['%global major 0', '%global minor 2', '%global major 1'],
    'similar': ['%global major 1', '%global minor 2', '%global Major 9', '%global majorx 8', '%global xminor 7', '%define MINOR 6'],
    'options': ['%global major() 7', '%define major 1', '%global minor 2'],
    'commented out': ['%global major 1', '%global minor 2', '%dnl %global pre rc1'],
    'comment': ['%global major 1', '%global minor 2', '#%%global major 5'],
    'prerelease': ['%global major 1', '%global minor 2', '%global pre rc1'],
    'later': ['%global major 1', '%global minor 2', 'LATER', '%global major 6'],
}
VALUES = ['1.2', '%{major}.%{minor}', '%{major}.%{minor}.%{micro}', '%{ver}', '%ver', '%{major}.2', '1.%{minor}', '%{?major}.%{minor}', '%{major}.%{minor}%{?pre:~%{pre}}', '%{major}.%{minor}%{?pre}',
          '%{major}%{minor}', '%{major}.%{major}', '%{expr:1+0}.%{minor}', '%(echo 1).%{minor}', '%{major}_%{minor}', '%{major}.%{minor}%{!?pre:.0}', '%{ver}.%{micro}', 'a$b', '%{major}$', '1.2%%3']
REQ = [lambda: '1.2', lambda: cat('3.', h('r', DIGIT)), lambda: cat(h('r', DIGIT), '.4.5'), lambda: h('r', DIGIT), lambda: cat('1.2~rc', h('r', DIGIT)), lambda: cat('a', h(), '$1'), lambda: '3.4-5', lambda: cat('1_', h('r', DIGIT)), lambda: '1.2\\3', lambda: '1.1']


def refs(v):
    return set(_re.findall(r'%\{?[?!]*([A-Za-z_]\w*)', v)) | set(_re.findall(r'%\{?[?!]*\w+:[^{}]*%\{?[?!]*([A-Za-z_]\w*)', v))


def reachable(ents, value, at, protected):
    """lines that may change when the value at the given line is updated"""
    ok = set()
    todo = list(refs(value))
    seen = set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        for i, kind, name, val, valid, off in ents:
            if i >= at or not valid or (name != n if kind == 'md' else name != n.lower()):
                continue
            if protected and _re.match(protected, name, _re.I):
                continue
            ok.add(i)
            todo += list(refs(val))
    return ok


def judge(I, w, s, lines, at, req, protected, what):
    c = w.rpm.c
    text = to_str(I, s)
    new = c.enc(text).split('\n')
    if new and new[-1] == '':
        new.pop()
    old = [c.enc(l) for l in lines]
    r = c.enc(req)

    def show(env):
        return '%r updated to %r: %r' % (conc_lines(lines, env), dom.conc(req, env), dom.conc(text, env).split('\n'))
    if len(new) != len(old):
        raise Violation('lines', 'specfile/specfile.py: %s changes the number of lines' % what, None, show)
    tab, ents = specmodel.read(old, BASE)
    ok = reachable(ents, [e for e in ents if e[0] == at][0][3], at, protected)
    for i, (a, b) in enumerate(zip(old, new)):
        if a != b and i != at and i not in ok:
            raise Violation('touched', 'specfile/specfile.py: %s changes something that is %s' % (what, 'after the tag' if i > at else 'not a valid, unprotected definition its value refers to'), None, show)
    tab, ents = specmodel.read(new, BASE)
    e = [x for x in ents if x[0] == at]
    if not e:
        raise Violation('value', 'specfile/specfile.py: after %s the tag is gone' % what, None, show)
    # macros as they are at the tag
    tab, _ = specmodel.read(new[:at], BASE)
    got = specmodel.expand(e[0][3], tab.get)
    return got, r, show


def check_value(got, r, show, what):
    if got != r:
        raise Violation('value', 'specfile/specfile.py: after %s the tag expands to something else than the requested value' % what, None, show)


def spec_lines(defs, value, protected=False):
    ls = list(DEFS[defs])
    later = []
    if 'LATER' in ls:
        k = ls.index('LATER')
        ls, later = ls[:k], ls[k + 1:]
    ls += ['Name: n', '# comment']
    at = len(ls)
    ls.append('Version: ' + value)
    ls += ['Release: 1'] + later + ['Summary: %{major} x', '%description', 'd']
    return ls, at


def prepare(I):
    I.world.rpm = specmodel.SpecModel()
    return I.world


def values(defs, full):
    return [v for v in (VALUES if full or defs in ('derived', 'commented out') else VALUES[1:10]) if expandable(DEFS[defs], v)]


def version(defs, vals):
    def f(I):
        w = prepare(I)
        value = pick(vals, 'value')
        req = pick(REQ, 'requested')()
        ls, at = spec_lines(defs, value)
        ls[-1] = cat('d', h('d'))
        s = new_spec(I, ls)
        no_raise(I, 'raises', 'specfile/specfile.py: update_tag()', lambda: I.call(I.getattr(s, 'update_tag'), ['Version', req]), lambda env: '%r updated to %r' % (conc_lines(ls, env), dom.conc(req, env)))
        check_value(*judge(I, w, s, ls, at, req, '.*name', 'updating a tag'), 'updating a tag')
    return f


def expandable(defs, value):
    tab, _ = specmodel.read([d for d in defs if d != 'LATER'])
    try:
        r = specmodel.expand(value, tab.get)
    except dom.Imprecise:
        return False
    return '%{' not in r and not _re.search(r'%\w', r)


# (lines before the tag, tag line, name, lines after it, requested, protected)
CASES = [
    ('protected macro', ['%global pname x', '%global major 1', 'Name: %{pname}'], 'Version', '%{pname}-%{major}', [], [lambda: cat('y-', h('r', DIGIT)), lambda: cat('x-', h('r', DIGIT)), lambda: 'x-1']),
    ('protected tag', ['Name: x', '%global major 1'], 'Version', '%{name}.%{major}', [], [lambda: cat('y.', h('r', DIGIT)), lambda: cat('x.', h('r', DIGIT))]),
    ('tag in tag', ['Name: x', 'Version: 1.2'], 'Source0', 'https://h/%{name}-%{version}.tar.gz', ['Summary: %{version}'], [lambda: cat('https://h/x-2.', h('r', DIGIT), '.tar.gz'), lambda: cat('https://h/y-1.', h('r', DIGIT), '.tar.gz'), lambda: cat('https://k/x-1.2.tar.', h()), lambda: 'local']),
    ('upper case tag', ['Name: x', 'Version: 1.2'], 'Source0', '%{NAME}-%{VERSION}.zip', [], [lambda: cat('x-2.', h('r', DIGIT), '.zip'), lambda: 'x-3.tar']),
    ('url', ['Name: x', 'Version: 1.2', 'URL: https://h/p'], 'Source0', '%{url}/x-%{version}.tgz', [], [lambda: cat('https://h/p/x-', h('r', DIGIT), '.tgz'), lambda: cat('https://', h(), '/q/x-1.2.tgz')]),
    ('tag of macro', ['%global major 1', 'Version: %{major}.2', 'Name: x'], 'Source0', 'x-%{version}.tgz', [], [lambda: cat('x-', h('r', DIGIT), '.2.tgz'), lambda: cat('x-1.', h('r', DIGIT), '.tgz'), lambda: 'x-5.tgz']),
    ('nested conditional', ['%global major 1', '%global minor 2'], 'Version', '%{?major:%{major}%{?minor:.%{minor}}}', [], [lambda: cat('3.', h('r', DIGIT)), lambda: h('r', DIGIT), lambda: '1.2.3']),
    ('hash comment', ['%global major 1', '#global pre rc1'], 'Version', '%{major}%{?pre:~%{pre}}', [], [lambda: cat('1~rc', h('r', DIGIT)), lambda: h('r', DIGIT)]),
    ('flip off', ['%global major 1', '%global pre rc1', '%global other %{pre}'], 'Version', '%{major}%{?pre:~%{pre}}', ['Release: %{?pre:0.}1'], [lambda: h('r', DIGIT), lambda: cat('1~rc', h('r', DIGIT))]),
    ('negative conditional', ['%global major 1', '%dnl %global snap 5'], 'Version', '%{major}%{!?snap:.0}', [], [lambda: cat(h('r', DIGIT), '.0'), lambda: h('r', DIGIT), lambda: cat('1.', h('r', DIGIT))]),
    ('configured macro', ['%global major 1'], 'Version', '%{major}%{?rc}.%{?dflt:x}', [], [lambda: cat(h('r', DIGIT), 'r.x'), lambda: '2', lambda: cat('1r.', h())]),
    ('chain', ['%global aaa 1', '%global bbb %{aaa}.2', '%global ccc %{bbb}.3'], 'Version', '%{ccc}', [], [lambda: cat('1.2.', h('r', DIGIT)), lambda: cat(h('r', DIGIT), '.2.3'), lambda: '7']),
    ('shared part', ['%global aaa 1', '%global bbb %{aaa}.2'], 'Version', '%{aaa}.%{bbb}', [], [lambda: cat('1.1.', h('r', DIGIT)), lambda: '2.1.2', lambda: '2.2.2', lambda: '3']),
    ('dollar', ['%global major 1'], 'Version', '$%{major}.$x', [], [lambda: cat('$', h('r', DIGIT), '.$x'), lambda: cat('$1.$', h()), lambda: '2']),
    ('regex characters', ['%global major 1'], 'Version', '(a+[b]*).%{major}', [], [lambda: cat('(a+[b]*).', h('r', DIGIT)), lambda: 'aab.1', lambda: cat('(', h(), ').1')]),
    ('group name characters', ['%global sub_0 1'], 'Version', 'x.%{sub_0}', [], [lambda: cat('y.', h('r', DIGIT)), lambda: cat('x.', h('r', DIGIT))]),
    ('references itself', ['%global aaa 1'], 'Version', '1.%{aaa}', [], [lambda: '1.%{aaa}', lambda: '2.%{aaa}', lambda: '1.%{aaa}.2', lambda: '1.x%{?aaa:y}']),
    ('inactive tag', ['%if 0', 'Version: 9', '%else', 'Version: 1.2', '%endif', 'Name: x'], 'Source0', 'x-%{version}.tgz', [], [lambda: cat('x-', h('r', DIGIT), '.tgz')]),
    ('definition after', ['%global major 1', 'Name: x'], 'Version', '%{major}.0', ['%global major 2', 'Release: %{major}'], [lambda: cat(h('r', DIGIT), '.0'), lambda: '1.5']),
    ('definition after, with long definitions', ['%define p() \\', ' a \\', ' b \\', ' c', '# x', '', '%global major 1', 'Name: x'], 'Version', '%{major}.0', ['%global major 2', 'Release: %{major}'], [lambda: cat(h('r', DIGIT), '.0'), lambda: '1.5']),
    ('flip on', ['%global major 1', '%dnl %global pre rc1'], 'Version', '%{major}%{?pre:~beta}', [], [lambda: cat(h('r', DIGIT), '~beta'), lambda: h('r', DIGIT), lambda: '1~gamma']),
    ('flip off negative', ['%global major 1', '%global snap 5'], 'Version', '%{major}%{!?snap:.0}', ['Release: 1'], [lambda: cat(h('r', DIGIT), '.0'), lambda: h('r', DIGIT), lambda: '1.5']),
    ('flip on twice', ['%global major 1', '#global pre rc1'], 'Version', '%{?pre:a}%{major}%{?pre:.b}', [], [lambda: cat('a', h('r', DIGIT), '.b'), lambda: h('r', DIGIT), lambda: cat('a', h('r', DIGIT))]),
    ('flip both ways', ['%global major 1', '%dnl %global pre rc1'], 'Version', '%{?pre:a}%{major}%{!?pre:.b}', [], [lambda: cat('a', h('r', DIGIT), '.b'), lambda: cat(h('r', DIGIT), '.b'), lambda: cat('a', h('r', DIGIT))]),
    ('plain substitutions', ['%global major 1'], 'Version', '%rc.%major.%{builtin}', [], [lambda: cat('r.', h('r', DIGIT), '.b'), lambda: '2', lambda: cat('r.1.', h())]),
    ('reference in a condition', ['%global aaa 1', '%global bbb 2'], 'Version', '%{aaa}.0', [], [lambda: '%{?bbb:%{aaa}}.0', lambda: '%{?bbb:%{?bbb:%aaa}}.0', lambda: '%{!?ccc:%{bbb}}.0']),
    ('tag referenced by itself', ['Name: x', 'Version: 1.2'], 'Source0', 'a-%{version}', [], [lambda: 'a-%{version}.1', lambda: 'a-%{VERSION}.1', lambda: 'a-%version', lambda: 'a-%{?VERSION}x']),
    ('percent', ['%global major 1'], 'Version', '%%x.%{major}', [], [lambda: cat('%%x.', h('r', DIGIT))]),
]


def case(k):
    name, before, tag, value, after, reqs = CASES[k]

    def f(I):
        w = prepare(I)
        req = pick(reqs, 'requested')()
        ls = list(before)
        at = len(ls)
        ls += ['%s:  %s' % (tag, value)] + list(after) + ['%description', cat('d', h('d'))]
        s = new_spec(I, ls)
        variant = pick(['default', 'everything protected', 'value'], 'variant')
        if name.startswith('definition after') and variant == 'everything protected':
            raise Infeasible('redefined after the tag')
        what = 'updating a tag'
        show = lambda env: '%r updated to %r' % (conc_lines(ls, env), dom.conc(req, env))
        if variant == 'default':
            no_raise(I, 'raises', 'specfile/specfile.py: update_tag()', lambda: I.call(I.getattr(s, 'update_tag'), [tag.lower(), req]), show)
            got, r, show = judge(I, w, s, ls, at, req, '.*name', what)
        elif variant == 'everything protected':
            no_raise(I, 'raises', 'specfile/specfile.py: update_tag()', lambda: I.call(I.getattr(s, 'update_tag'), [tag, req], {'protected_entities': '[A-Z]'}), show)
            got, r, show = judge(I, w, s, ls, at, req, '.*', what + ' with everything protected')
        else:
            res = no_raise(I, 'raises', 'specfile/specfile.py: update_value()', lambda: I.call(I.getattr(s, 'update_value'), [value, req, at], {'protected_entities': None}), show)
            # a value that is not (yet) in the spec file
            c = w.rpm.c
            new = c.enc(to_str(I, s)).split('\n')[:-1]
            old = [c.enc(l) for l in ls]
            tab, ents = specmodel.read(old, BASE)
            ok = reachable(ents, value, at, None)
            for i, (a, b) in enumerate(zip(old, new)):
                if a != b and i not in ok:
                    raise Violation('touched', 'specfile/specfile.py: update_value() changes something that is not a valid definition before the value it refers to', None, lambda env: show(env) + ': %r' % dom.conc(to_str(I, s), env))
            tab, _ = specmodel.read(new[:at], BASE)
            got, r = specmodel.expand(c.enc(res), tab.get), c.enc(req)
            what = 'update_value()'
        if '%' in r:
            r = specmodel.expand(r, tabs(I, w, s, at).get)
        check_value(got, r, show, what)
    return f


def tabs(I, w, s, at):
    return specmodel.read(w.rpm.c.enc(to_str(I, s)).split('\n')[:at], BASE)[0]


PATTERN = r'([.\-_~^]?)(a|b|rc)\d+'


def prerelease(I):
    """update_version with a pre-release suffix pattern"""
    w = prepare(I)
    form = pick(['plain', 'macro', 'macro off', 'hash', 'other macro', 'no macro', 'unrelated'], 'form')
    ver = pick([('2.0', None), ('2.0rc%s', '2.0~rc%s'), ('2.0-b%s', '2.0~b%s'), ('2.0RC%s', '2.0~RC%s'), ('2.0~rc%s', '2.0~rc%s'), ('2.0.x', None)], 'version')
    d = h('r', DIGIT)

    def fill(t):
        a, _, b = t.partition('%s')
        return cat(a, d, b) if '%s' in t else t
    req = fill(ver[0])
    want = fill(ver[1]) if ver[1] else req
    before = {'plain': [], 'macro': ['%global pre rc1'], 'macro off': ['%dnl %global pre rc1'], 'hash': ['#global pre rc1'], 'other macro': ['%global pre rc1'], 'no macro': ['%global pre rc1'], 'unrelated': ['%global pre rc1']}[form]
    value = '1.0' if form in ('plain', 'unrelated') else '1.0%{?pre:~%{pre}}'
    ls = before + ['Name: x', 'Version: ' + value, 'Release: 1', '%description', cat('d', h('d'))]
    at = len(before) + 1
    s = new_spec(I, ls)
    pattern = form != 'unrelated' and cur().pick(2, 'no pattern') == 0
    kw = {'prerelease_suffix_pattern': PATTERN} if pattern else {}
    if not pattern:
        want = req
    if form not in ('no macro',):
        kw['prerelease_suffix_macro'] = 'pre' if form != 'other macro' else 'missing'
    style = pick([None, 'HASH', 'DNL'], 'style') if pattern and 'rc' in ''.join(before) and ver[1] is None else None
    if style:
        kw['comment_out_style'] = get(I, 'macro_definitions.CommentOutStyle.' + style)
    show = lambda env: '%r, update_version(%r)' % (conc_lines(ls, env), dom.conc(req, env))
    no_raise(I, 'raises', 'specfile/specfile.py: update_version()', lambda: I.call(I.getattr(s, 'update_version'), [req], kw), show)
    got, r, show = judge(I, w, s, ls, at, want, '.*name', 'updating the version')
    check_value(got, r, show, 'updating the version')
    if pattern and form in ('macro', 'macro off', 'hash'):
        tab, ents = specmodel.read(w.rpm.c.enc(to_str(I, s)).split('\n'), BASE)
        e = [x for x in ents if x[1] == 'md' and x[2] == 'pre'][0]
        if e[5] != (ver[1] is None):
            raise Violation('prerelease-macro', 'specfile/specfile.py: after updating the version the pre-release macro is %s' % ('commented out' if e[5] else 'active'), None, show)
        line = w.rpm.c.enc(to_str(I, s)).split('\n')[0]
        if form != 'macro' and ver[1] is None and line != before[0]:
            raise Violation('prerelease-macro', 'specfile/specfile.py: updating the version changes the pre-release macro although it is commented out already', None, show)
        if form == 'macro' and ver[1] is None and not line.startswith('#global' if style == 'HASH' else '%dnl'):
            raise Violation('prerelease-macro', 'specfile/specfile.py: the pre-release macro is not commented out in the requested style', None, show)


def OBLIGATIONS(tier):
    out = []
    for d in DEFS:
        vals = values(d, tier != 'quick')
        out.append(Obligation('version: %s' % d, version(d, vals), split=len(vals), quick=(500, 60)))
    for k, c in enumerate(CASES):
        out.append(Obligation('case: %s' % c[0], case(k), quick=(400, 60)))
    out.append(Obligation('pre-release versions', prerelease, split=7, quick=(400, 60)))
    return out
