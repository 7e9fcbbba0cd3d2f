"""C19: an automatically managed release or changelog is left alone; bumping changes one number."""
from ..scn import *
from .c24 import header, stamp, DATES

EXPLANATION = (
    'Abstract interpretation of adding changelog entries and bumping the release over spec files whose release and changelogs use %autorelease and '
    '%autochangelog in every syntactic form, mention them in comments or other macros, or do not use them. Managed parts must provably stay as '
    'they are, all others must get the change, and bumping must change one number of one line.')
RULE = ('section uses %autochangelog <=> has_autochangelog and its lines are unchanged by add_changelog_entry(); release uses %autorelease <=> has_autorelease and bump_release() '
        'changes nothing; otherwise exactly one line changes, by the reference bump')
ASSUMPTIONS = ['forms of the macros from a finite list; free text around them', 'macro expansion returns its argument']


def h(n='h'):
    return fresh_str(n, LETTER, 1, 1)


AUTO = [
    (lambda: ['%autochangelog'], True), (lambda: ['%{autochangelog}'], True), (lambda: ['%{?autochangelog}'], True), (lambda: ['  %autochangelog  '], True),
    (lambda: ['', cat('# ', h()), '%autochangelog'], True), (lambda: [cat('%{?', h(), 'x:%autochangelog}')], True), (lambda: ['%{?fedora:%{autochangelog}}'], True),
    (lambda: [cat('x', h(), ' %autochangelog')], True), (lambda: ['%autochangelog -x'], True), (lambda: [cat('%autochangelog # ', h())], True), (lambda: ['x # %autochangelog'], True), (lambda: ['%{broken', '%autochangelog'], True),
    (lambda: ['# %autochangelog'], False), (lambda: ['   #%autochangelog'], False), (lambda: ['%autochangelogs'], False), (lambda: ['%%autochangelog'], False),
    (lambda: ['%{autochangelogx}'], False), (lambda: [cat('- mention autochangelog ', h())], False), (lambda: ['%{!?autochangelog:x}'], False),
    (lambda: ['%{broken'], False), (lambda: [], False), (lambda: [cat('* Mon Jan 03 2022 X', h(), ' - 1-1'), '- x'], False),
]
MANAGED = [a for a in AUTO if a[1]]


def sections(I):
    identity_expand(I)
    n = pick([1, 2], 'changelog sections')
    lines = ['Name: n', 'Version: 1', 'Release: 1']
    want = list(lines)
    evr, author = '1-1', 'A <b@c>'
    hd = header(DATES[0], None, '0', author, evr)
    autos = []
    for i in range(n):
        ls, auto = pick(AUTO if i == 0 else [AUTO[0], AUTO[-1], AUTO[10], AUTO[-2]], 'section %d' % i)
        ls = ls()
        autos.append(auto)
        lines += ['%changelog'] + ls
        first = next((k for k, x in enumerate(ls) if (x if isinstance(x, str) else dom.norm(x.parts)[0]).startswith('*')), None)
        want += ['%changelog'] + (ls if auto else ls + [hd, '- e'] if first is None else ls[:first] + [hd, '- e', ''] + ls[first:])
    s = new_spec(I, lines)
    got = I.getattr(s, 'has_autochangelog')
    if not isinstance(got, bool):
        raise Imprecise('has_autochangelog')
    if got is not any(autos):
        raise Violation('has-autochangelog', 'specfile/specfile.py: has_autochangelog is %r' % got, None, show_lines(lines))
    kw = {'author': 'A', 'email': 'b@c', 'evr': evr, 'timestamp': stamp(I, 'date', DATES[0])[0]}
    no_raise(I, 'raises', 'adding a changelog entry', lambda: I.call(I.getattr(s, 'add_changelog_entry'), ['- e'], kw), show_lines(lines))
    same_text(to_str(I, s), join_lines(want), 'changelog', 'specfile/specfile.py: the changelogs after adding an entry')


RELEASES = [
    ('%autorelease', True), ('%{autorelease}', True), ('%autorelease -b 3', True), ('%{?autorelease}', True), ('%{?x:%autorelease}', True), ('%{autorelease -p}', True), ('3%{autorelease}', True), ('%{?a:1}%{?b:%{autorelease}}', True),
    ('1', False), ('%autoreleases', False), ('%%autorelease', False), ('%{autorelease_x}', False), ('%{!?autorelease:1}', False), ('autorelease', False), ('1%{?dist}', False),
]

# release -> bumped release (reference)
BUMP = {'1': '2', '9': '10', '1%{?dist}': '2%{?dist}', '19%{?dist}.3': '20%{?dist}.3', '0.1': '0.2', '0.9.rc1%{?dist}': '0.10.rc1%{?dist}', '0.3.%{x}': '0.4.%{x}', '1.rc1': '1.rc1.1', '1.beta%{?dist}': '1.beta%{?dist}.1',
        '1.alpha.2': '1.alpha.3', '%release_func 5': '%release_func 6', '%{rel}': '%{rel}.1', '%{rel}.3': '%{rel}.4', '%{rel}%{?dist}.9': '%{rel}%{?dist}.10', '%autoreleases': '%autoreleases.1', '%%autorelease': '%%autorelease.1',
        '%{autorelease_x}': '%{autorelease_x}.1', '%{!?autorelease:1}': '%{!?autorelease:1}.1', 'autorelease': 'autorelease.1', '0': '1', '2.1': '3.1'}
DEFS = [
    lambda: ([], None), lambda: (['%global baserelease 4'], (0, '%global baserelease 5')), lambda: ([cat('# ', h()), '%define release 0.7.%{x}'], (1, '%define release 0.8.%{x}')),
    lambda: (['%global BaseRelease  3%{?dist} '], (0, '%global BaseRelease  4%{?dist} ')), lambda: (['%dnl %global baserelease 4'], None), lambda: (['#global release 3'], None),
    lambda: (['%if 0', '%global baserelease 1', '%endif'], None), lambda: (['%if 0', '%global baserelease 1', '%else', '%global baserelease 2', '%endif'], (3, '%global baserelease 3')),
    lambda: (['%global myrelease 3'], None), lambda: (['%global releases 3'], None), lambda: (['%global baserelease 1', '%global release 7'], (0, '%global baserelease 2')),
]


def bump(I):
    I.world.expand = lambda I, s: s
    defs, hit = pick(DEFS, 'macro definitions')()
    rels = [(r, a) for r, a in RELEASES if a] + [(r, False) for r in sorted(BUMP)]
    rel, auto = pick(rels, 'release')
    lines = ['Name: n', cat('Version: ', h())] + defs + ['Release:  ' + rel, cat('Summary: 1', h()), '%changelog', cat('* Thu Jan 13 2022 X', h(), ' - 1-1'), '- x']
    auto_save = cur().pick(2, 'autosave') == 1
    s = new_spec(I, lines, autosave=auto_save)
    got = I.getattr(s, 'has_autorelease')
    if got is not auto:
        raise Violation('has-autorelease', 'specfile/specfile.py: has_autorelease is %r for %r' % (got, rel), None, None)
    no_raise(I, 'raises', 'bumping the release', lambda: I.call(I.getattr(s, 'bump_release'), []), show_lines(lines))
    want = list(lines)
    if not auto:
        if hit:
            want[2 + hit[0]] = hit[1]
        else:
            want[2 + len(defs)] = 'Release:  ' + BUMP[rel]
    same_text(to_str(I, s), join_lines(want), 'bump', 'specfile/specfile.py: the content after bumping the release %r' % rel)
    same_text(file_text(I, SPEC), join_lines(want if auto_save else lines), 'bump', 'specfile/specfile.py: the file after bumping the release %r' % rel)


def has(I):
    identity_expand(I)
    rel, auto = pick(RELEASES, 'release')
    s = new_spec(I, ['Name: n', 'Version: 1', 'Release: ' + rel])
    got = I.getattr(s, 'has_autorelease')
    if got is not auto:
        raise Violation('has-autorelease', 'specfile/specfile.py: has_autorelease is %r for %r' % (got, rel), None, None)


# release property: raw -> (release without dist, raw release after setting it to 7)
SPLIT = {'1%{?dist}': ('1', '7%{?dist}'), '1%{dist}': ('1', '7%{dist}'), '1%dist': ('1', '7%dist'), '1%{?dist}.3': ('1', '7%{?dist}'), '1': ('1', '7'), '%{rel}%{?dist}': ('%{rel}', '7%{?dist}'),
         '%{release_string}': ('%{release_string}', '7'), '0.1%{pre}%{?dist}.20': ('0.1%{pre}', '7%{?dist}'), '1%{?distx}': ('1%{?distx}', '7'), '1%{?dist}x': ('1%{?dist}x', '7')}


def release(I):
    identity_expand(I)
    raw = pick(sorted(SPLIT), 'release')
    lines = ['Name: n', cat('Version: ', h()), 'Release: ' + raw, '%description']
    s = new_spec(I, lines)
    rel, after = SPLIT[raw]
    same_text(I.getattr(s, 'release'), rel, 'release', 'specfile/specfile.py: release of %r' % raw)
    same_text(I.getattr(s, 'raw_release'), raw, 'release', 'specfile/specfile.py: raw release of %r' % raw)
    m = cat('7', h())
    how = pick(['release', 'set_version_and_release'], 'operation')
    want = list(lines)
    want[2] = cat('Release: ', m, after[1:])
    if how == 'release':
        I.setattr(s, 'release', m)
    else:
        I.call(I.getattr(s, 'set_version_and_release'), ['5', m])
        want[1] = 'Version: 5'
    same_text(to_str(I, s), join_lines(want), 'release', 'specfile/specfile.py: the content after setting the release of %r' % raw)


def OBLIGATIONS(tier):
    return [Obligation('changelog sections', sections, split=(2, len(AUTO)), quick=(6000, 60)), Obligation('bump release', bump, split=len(DEFS), quick=(6000, 60)), Obligation('autorelease', has), Obligation('release and dist', release)]
