"""C01: parsing a part of a spec file and writing it back unchanged yields the
same lines."""
from ..scn import *

EXPLANATION = (
    'Path-sensitive abstract interpretation of every parse/serialise pair (Sections, Tags with Comments, MacroDefinitions, Prep, '
    'Changelog, Sourcelist) over abstract lines: each line is one of a vocabulary of shapes (comment, blank, definition, tag, macro, '
    'condition, ...) whose holes are symbolic character-class strings. The serialised lines must be provably the input lines on every '
    'path; a mismatch is reported only if the partition contains a concrete witness that reproduces it in the transfer functions.')
RULE = 'serialise(parse(lines)) == lines, per view, on every path'
ASSUMPTIONS = ['lines contain no newline', 'a bare %package header (rejected by RPM) is outside the property',
               'bounds: number of lines per obligation and hole lengths as listed per obligation']


def c1(n='c', minus=0):
    """one arbitrary character"""
    return fresh_str(n, NOT_NL & ~minus, 1, 1)


def t1(n='t'):
    return fresh_str(n, TEXT & ~WS, 1, 1)


def ws(n='s'):
    return fresh_str(n, BLANK, 0, 2)


def ws1(n='s'):
    return fresh_str(n, BLANK, 1, 2)


# ------------------------------------------------------------------- tags
TAG_LINES = [
    lambda: '',
    lambda: cat('Name:', ws1(), t1(), t1()),
    lambda: cat(ws(), '#', ws(), t1(), v_text('c')),
    lambda: cat('Source', fresh_str('d', cmask('0123456789'), 0, 2), ws('s1'), ':', ws('s2'), t1(), ws('s3')),
    lambda: cat('%{?x:Version:', ws1(), t1(), '}', ws('s2')),
    lambda: cat('%{!?x:', t1(), '}', ws1()),
    lambda: cat('Requires(', t1(), '):', ws1(), '%{', fresh_str('m', LETTER, 1, 1), '}', t1(), ws()),
    lambda: cat('License: %{', fresh_str('m', LETTER, 1, 1), ':', ws('s1')),
    lambda: cat('License: %(', t1(), ws('s1')),
    lambda: cat(t1(), '}', ws1('s2')),
    lambda: cat(t1(), ')', t1()),
    lambda: cat('@', c1()),
    lambda: cat(ws1(), 'Name: ', t1()),
    lambda: cat('%if', ws1(), t1()),
    lambda: '%endif',
    lambda: cat('%global', ws1('s1'), 'x', ws1('s2'), t1(), ws('s3')),
    lambda: cat('name', ws('s1'), ':', ws('s2'), 'a{}()', t1(), '%%', t1(), ws1('s3')),
]


def tags_rt(n, alphabet=TAG_LINES, last=None):
    def f(I):
        identity_expand(I)
        lines = gen_lines(alphabet, n)
        section = I.call(get(I, 'sections.Section'), ['package'], {'data': VList(list(lines))})
        view = no_raise(I, 'tags-parse-raises', 'Tags.parse()', lambda: I.call(get(I, 'tags.Tags.parse'), [section]), show_lines(lines))
        out = no_raise(I, 'tags-write-raises', 'Tags.get_raw_section_data()', lambda: I.call(I.getattr(view, 'get_raw_section_data'), []), show_lines(lines))
        same_lines(items(I, out), lines, 'tags-roundtrip', 'specfile/tags.py: Tags.parse/get_raw_section_data do not reproduce the preamble')
    return f


def free_line(n='L'):
    return fresh_str(n, NOT_NL, 0, None)


def comments_rt(n):
    def f(I):
        identity_expand(I)
        lines = [free_line('L%d' % i) for i in range(n)]
        view = no_raise(I, 'comments-parse-raises', 'Comments.parse()', lambda: I.call(get(I, 'tags.Comments.parse'), [VList(list(lines))]), show_lines(lines))
        out = I.call(I.getattr(view, 'get_raw_data'), [])
        same_lines(items(I, out), lines, 'comments-roundtrip', 'specfile/tags.py: Comments.parse/get_raw_data do not reproduce the comment lines')
    return f


def simple_rt(mod, cls, sec, n):
    def f(I):
        identity_expand(I)
        lines = [free_line('L%d' % i) for i in range(n)]
        section = I.call(get(I, 'sections.Section'), [sec], {'data': VList(list(lines))})
        view = no_raise(I, cls + '-parse-raises', cls + '.parse()', lambda: I.call(get(I, '%s.%s.parse' % (mod, cls)), [section]), show_lines(lines))
        out = no_raise(I, cls + '-write-raises', cls + '.get_raw_section_data()', lambda: I.call(I.getattr(view, 'get_raw_section_data'), []), show_lines(lines))
        same_lines(items(I, out), lines, cls.lower() + '-roundtrip', 'specfile/%s.py: %s.parse/get_raw_section_data do not reproduce the section' % (mod, cls))
    return f


CHANGELOG_LINES = [
    lambda: '',
    lambda: ws1(),
    lambda: cat('*', v_any('h')),
    lambda: cat('-', v_any('e')),
    lambda: cat(ws1(), '*', v_any('e')),
    lambda: cat(t1(), v_any('o')),
]


def changelog_rt(n):
    def f(I):
        identity_expand(I)
        lines = gen_lines(CHANGELOG_LINES, n)
        section = I.call(get(I, 'sections.Section'), ['changelog'], {'data': VList(list(lines))})
        view = no_raise(I, 'changelog-parse-raises', 'Changelog.parse()', lambda: I.call(get(I, 'changelog.Changelog.parse'), [section]), show_lines(lines))
        out = I.call(I.getattr(view, 'get_raw_section_data'), [])
        same_lines(items(I, out), lines, 'changelog-roundtrip', 'specfile/changelog.py: Changelog.parse/get_raw_section_data do not reproduce the section')
    return f


SOURCELIST_LINES = [
    lambda: '',
    lambda: cat(ws(), '#', v_any('c')),
    lambda: cat(t1(), v_any('u')),
    lambda: ws1(),
    lambda: cat(ws1(), t1(), v_any('u')),
    lambda: cat('%if ', t1()),
    lambda: '%endif',
]


def sourcelist_rt(n):
    def f(I):
        identity_expand(I)
        lines = gen_lines(SOURCELIST_LINES, n)
        section = I.call(get(I, 'sections.Section'), ['sourcelist'], {'data': VList(list(lines))})
        view = no_raise(I, 'sourcelist-parse-raises', 'Sourcelist.parse()', lambda: I.call(get(I, 'sourcelist.Sourcelist.parse'), [section]), show_lines(lines))
        out = I.call(I.getattr(view, 'get_raw_section_data'), [])
        same_lines(items(I, out), lines, 'sourcelist-roundtrip', 'specfile/sourcelist.py: Sourcelist.parse/get_raw_section_data do not reproduce the section')
    return f


# ------------------------------------------------------- macro definitions
MD_LINES = [
    lambda: '',
    lambda: cat(ws('s0'), '%global', ws1('s1'), t1(), ws1('s2'), t1(), ws('s3')),
    lambda: cat('%define x', ws1('s2'), c1('b1'), c1('b2'), ws('s3')),
    lambda: cat('%define f(', fresh_str('o', LETTER, 0, 1), ')', ws1('s2'), '%{', t1(), ws('s3')),
    lambda: cat('%global x', ws1('s2'), t1(), ws('s3'), '\\'),
    lambda: cat('%global x', ws1('s2'), '\\'),
    lambda: cat('%global x %(', t1(), ws('s3')),
    lambda: cat('%dnl', ws('s0'), '%global x', ws1('s2'), t1(), ws('s3')),
    lambda: cat('%dnl ', '# %', '%define x ', t1()),
    lambda: cat('#global', ws1('s1'), 'x', ws1('s2'), t1(), ws('s3')),
    lambda: cat('#', ws('s0'), '%', '%define x', ws1('s2'), t1(), '\\'),
    lambda: cat('#', ws('s0'), t1(), '%define x', ws1('s2'), t1(), '{'),
    lambda: cat(ws('s0'), '%%', 'global x ', t1()),
    lambda: cat(t1(), '}', ws('s1')),
    lambda: cat(t1(), ')', ws('s1')),
    lambda: cat(t1(), '\\', ws('s1')),
    lambda: cat(v_text('o'), ws('s1')),
    lambda: cat('%if ', t1()),
    lambda: '%endif',
]


def md_rt(n, with_conditions=False, alphabet=MD_LINES):
    def f(I):
        identity_expand(I)
        lines = gen_lines(alphabet, n)
        kw = {'with_conditions': True} if with_conditions else {}
        view = no_raise(I, 'macrodefs-parse-raises', 'MacroDefinitions.parse()',
                        lambda: I.call(get(I, 'macro_definitions.MacroDefinitions.parse'), [VList(list(lines))], kw), show_lines(lines))
        out = I.call(I.getattr(view, 'get_raw_data'), [])
        same_lines(items(I, out), lines, 'macrodefs-roundtrip', 'specfile/macro_definitions.py: MacroDefinitions.parse/get_raw_data do not reproduce the lines')
    return f


# ---------------------------------------------------------------- sections
SEC_LINES = [
    lambda: '',
    lambda: cat('%', fresh_str('h', LETTER & ~cmask('xyz'), 1, 1), 'q', ws('s1')),
    lambda: cat('%build', ws('s1')),
    lambda: cat('%Package', ws1('s1'), '-n', ws1('s2'), t1(), ws('s3')),
    lambda: cat('%description', ws1('s1'), t1(), ws1('s2'), '-l', t1()),
    lambda: cat('%files', ws1('s1'), '-n', t1(), '%{', fresh_str('m', LETTER, 1, 1), '}', ws('s2')),
    lambda: cat('%install', ws1('s1'), '%', fresh_str('m', LETTER, 1, 1)),
    lambda: cat('%check', ws1('s0'), t1(), '\\'),
    lambda: cat('%post', ws1('s1'), '-p', ws('s2'), '<lua>', ws('s3')),
    lambda: cat('%prepx', ws('s1')),
    lambda: cat('%global x', ws1('s1'), t1(), '\\'),
    lambda: cat('%define x %{', t1()),
    lambda: cat(t1(), '}'),
    lambda: cat(c1(minus=PCT), v_text('o')),
    lambda: cat('%ChangeLog', ws('s1')),
    lambda: cat('%triggerin', ws1('s1'), '--', ws1('s2'), t1()),
]


def sec_rt(n, alphabet=SEC_LINES):
    def f(I):
        identity_expand(I)
        lines = gen_lines(alphabet, n)
        view = no_raise(I, 'sections-parse-raises', 'Sections.parse()', lambda: I.call(get(I, 'sections.Sections.parse'), [VList(list(lines))]), show_lines(lines),
                        allowed=('SpecfileException',))
        out = I.call(I.getattr(view, 'get_raw_data'), [])
        same_lines(items(I, out), lines, 'sections-roundtrip', 'specfile/sections.py: Sections.parse/get_raw_data do not reproduce the lines')
        text = to_str(I, view)
        want = cat(*[cat(l, '\n') for l in lines]) if lines else ''
        same_text(text, want, 'sections-str', 'specfile/sections.py: str(Sections) does not reproduce the text')
    return f


# -------------------------------------------------------------------- prep
PREP_LINES = [
    lambda: '',
    lambda: cat('%setup', ws1('s1'), '-q', ws('s2')),
    lambda: cat('%autosetup', ws1('s1'), '-n', ws('s2'), t1(), ws1('s3'), '-p1', ws('s4')),
    lambda: cat('%patch', fresh_str('d', cmask('0123456789'), 0, 1), ws1('s1'), '-p', fresh_str('e', cmask('0123456789'), 1, 1), ws('s2')),
    lambda: cat('%{patch', fresh_str('d', cmask('0123456789'), 1, 1), '}'),
    lambda: cat('%{?x:%patch1', ws1('s1'), '-p1', ws('s2'), '}', ws('s3')),
    lambda: cat('%{?x:', t1(), '}'),
    lambda: cat(ws1('s1'), '%autopatch', ws('s2')),
    lambda: cat('%setup', ws1('s1'), '-n', ws1('s2'), '"', fresh_str('q', NOT_NL & ~cmask('"\\%'), 1, 1), '"', ws('s3')),
    lambda: cat('%setup', ws1('s1'), '-c', '\\', c1()),
    lambda: cat('%setup -n %{', fresh_str('m', LETTER, 1, 1), '}-', t1()),
    lambda: cat('%setupx', v_text('o')),
    lambda: cat(c1(minus=PCT), v_text('o')),
    lambda: cat('%dnl %setup ', t1()),
    lambda: cat('%if ', t1()),
]


def prep_rt(n, alphabet=PREP_LINES):
    def f(I):
        identity_expand(I)
        lines = gen_lines(alphabet, n)
        section = I.call(get(I, 'sections.Section'), ['prep'], {'data': VList(list(lines))})
        view = no_raise(I, 'prep-parse-raises', 'Prep.parse()', lambda: I.call(get(I, 'prep.Prep.parse'), [section]), show_lines(lines),
                        allowed=('SpecfileException',))
        out = no_raise(I, 'prep-write-raises', 'Prep.get_raw_section_data()', lambda: I.call(I.getattr(view, 'get_raw_section_data'), []), show_lines(lines))
        same_lines(items(I, out), lines, 'prep-roundtrip', 'specfile/prep.py: Prep.parse/get_raw_section_data do not reproduce the section')
    return f


def OBLIGATIONS(tier):
    q = tier == 'quick'
    obs = []
    for n in range(1, 3 if q else 4):
        obs += [
            Obligation('Comments x%d free lines' % n, comments_rt(n)),
            Obligation('Changelog x%d free lines' % n, simple_rt('changelog', 'Changelog', 'changelog', n)),
            Obligation('Sourcelist x%d free lines' % n, simple_rt('sourcelist', 'Sourcelist', 'sourcelist', n)),
        ]
    for n in range(1, 3 if q else 5):
        obs += [
            Obligation('Tags x%d lines' % n, tags_rt(n), split=len(TAG_LINES) if n > 1 else 0, quick=(4000, 40), thorough=(60000, 300)),
            Obligation('MacroDefinitions x%d lines' % n, md_rt(n), split=len(MD_LINES) if n > 1 else 0, quick=(4000, 40), thorough=(60000, 300)),
            Obligation('Sections x%d lines' % n, sec_rt(n), split=len(SEC_LINES) if n > 1 else 0, quick=(4000, 40), thorough=(60000, 300)),
            Obligation('Prep x%d lines' % n, prep_rt(n), split=len(PREP_LINES) if n > 1 else 0, quick=(4000, 40), thorough=(60000, 300)),
        ]
    obs.append(Obligation('MacroDefinitions with conditions x2', md_rt(2, True), split=len(MD_LINES), quick=(3000, 30)))
    for n in (3, 4) if q else (3, 4, 5, 6):
        obs.append(Obligation('Changelog x%d shaped lines' % n, changelog_rt(n), split=len(CHANGELOG_LINES)))
        obs.append(Obligation('Sourcelist x%d shaped lines' % n, sourcelist_rt(n), split=len(SOURCELIST_LINES)))
    return obs
