"""C27: the author of a changelog entry is found where it is configured."""
from ..scn import *

EXPLANATION = (
    'Abstract interpretation of adding a changelog entry and of guessing the packager over every combination of what the host provides: the environment '
    'variable, the %packager macro, git (missing, without configuration, with a name, an e-mail or both) and the current user (unknown, without a '
    'passwd entry, with or without a full name), with free text. The author is compared with the documented order of places.')
RULE = 'author == given author, else first of $RPM_PACKAGER, %packager, git "name <e-mail>" (the user name standing in for a missing name); none => refused and nothing changes'
ASSUMPTIONS = ['git prints the value and a newline, or nothing if it is not configured', 'an unknown user raises KeyError or OSError']


def h(n='h'):
    return fresh_str(n, LETTER, 1, 1)


def host(I):
    """(expected author or '')"""
    env = pick([None, lambda: cat('E ', h(), ' <e@x>')], 'environment variable')
    macro = pick([None, lambda: cat('M ', h())], 'macro')
    git = pick([None, (0, 0), (1, 0), (0, 1), (1, 1)], 'git')
    u, g, exc = pick([('usr', 'Full Name', ''), ('usr', '', ''), ('usr', None, ''), (None, None, 'OSError'), (None, None, 'KeyError')], 'user')
    name, mail = cat('G', h(), ' N'), cat(h(), '@g')
    e = env() if env else None
    m = macro() if macro else None
    if e is not None:
        I.world.env.put('RPM_PACKAGER', e)
    I.world.expand = lambda I, s: (m if m is not None and isinstance(s, str) and s in ('%packager', '%{packager}', '%{?packager}') else '' if s == '%{?packager}' else s)
    I.hooks['which'] = lambda I, n: '/usr/bin/git' if git and n == 'git' else None

    def run(I, cmd):
        if git is None:
            I.raise_('FileNotFoundError', 'git')
        if cmd[:2] != ['git', 'config']:
            raise Imprecise('command')
        if cmd[-1] == 'user.email':
            return (0, cat(mail, '\n')) if git[1] else (1, '')
        if cmd[-1] == 'user.name':
            return (0, cat(name, '\n')) if git[0] else (1, '')
        raise Imprecise('command')
    I.hooks['subprocess'] = run
    I.hooks['user'] = lambda I: (u, g, exc)
    if e is not None:
        return e
    if m is not None:
        return m
    full = name if git and git[0] else (g or u or '')
    em = mail if git and git[1] else ''
    if full and em:
        return cat(full, ' <', em, '>')
    return em or full


def done(I):
    for k in ('which', 'subprocess', 'user'):
        I.hooks.pop(k, None)


def guess(I):
    try:
        want = host(I)
        got = no_raise(I, 'raises', 'specfile/changelog.py: guess_packager()', lambda: I.call(get(I, 'changelog.guess_packager'), []))
        same_text(got, want, 'author', 'specfile/changelog.py: the author')
    finally:
        done(I)


def entry(I):
    try:
        want = host(I)
        given = pick([None, lambda: cat('A ', h())], 'author given')
        lines = ['Name: n', 'Version: 1', 'Release: 1', '%changelog', '* Mon Jan 01 2024 Q <q@q> - 1-1', '- q']
        s = new_spec(I, lines)
        a = given() if given else None
        kw = {'evr': '2-1'}
        if a is not None:
            kw['author'] = a
        before = to_str(I, s)
        try:
            I.call(I.getattr(s, 'add_changelog_entry'), ['- e'], kw)
        except AbsRaise as e:
            if a is not None or not (isinstance(want, str) and want == '') or not any(c.name == 'SpecfileException' for c in e.exc.cls.mro):
                raise Violation('refused', 'specfile/specfile.py: adding a changelog entry raises %s' % exc_name(e), None, None)
            same_text(to_str(I, s), before, 'refused-changes', 'specfile/specfile.py: a refused changelog entry changes the content')
            return
        if a is None and isinstance(want, str) and want == '':
            raise Violation('accepted', 'specfile/specfile.py: a changelog entry without an author is added', None, None)
        ls = items(I, I.call(I.getattr(to_str(I, s), 'splitlines'), []))
        if len(ls) < 5 or not is_str(ls[4]):
            raise Imprecise('lines')
        hd = ls[4]
        who = a if a is not None else want
        day = I.world.now_utc[:3]
        import datetime
        d = datetime.date(*day)
        same_text(hd, cat(d.strftime('* %a %b %d %Y '), who, ' - 2-1'), 'entry-author', 'specfile/specfile.py: the author of the new changelog entry')
    finally:
        done(I)


def OBLIGATIONS(tier):
    return [Obligation('guessing the packager', guess), Obligation('adding an entry', entry, split=(2, 2, 5), quick=(3000, 40))]
