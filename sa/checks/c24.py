"""C24: changelog entries are added on top in the style of the others and read back."""
from ..scn import *
from .c13 import hook, label
import calendar

EXPLANATION = (
    'Abstract interpretation of adding, assembling, reading and filtering changelog entries: the lines after adding an entry must be the old lines with '
    'exactly the new entry (and a blank line) before the first one, the header must be the one an independent formatter produces, '
    'the fields read back must be those given, and a filtered changelog must be the run of entries an independent EVR comparison selects.')
RULE = 'lines == predecessor + new entry + old entries; header == reference format; evr/timestamp style/padding read back; filter == reference run of the same entry objects'
ASSUMPTIONS = ['dates from a finite list; the current time is fixed', 'macro expansion returns its argument', 'at most three entries']
DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']


def h(n='h'):
    return fresh_str(n, LETTER, 1, 1)


def header(d, t, pad, author, evr):
    y, m, day = d
    s = '* %s %s' % (DAYS[calendar.weekday(y, m, day)], MONTHS[m - 1])
    s += ' %s%02d' % (pad[:-1], day) if pad.endswith('0') else ' %s%d' % (pad, day)
    if t:
        s += ' %02d:%02d:%02d %s' % t
    s += ' %04d ' % y
    return cat(s, author, *([' - ', evr] if evr is not None else []))


DATES = [(2024, 5, 7), (2021, 1, 3), (1999, 12, 31), (2024, 2, 29), (2023, 9, 10)]


def dt(I, name):
    return I.getattr(I.modules['specfile.changelog'].attrs['datetime'], name)


def stamp(I, kind, d):
    if kind == 'date':
        return I.call(dt(I, 'date'), list(d)), None
    tz = {'naive': None, 'utc': I.getattr(dt(I, 'timezone'), 'utc'), 'other': None}[kind]
    if kind == 'other':
        tz = I.call(dt(I, 'timezone'), ['CET'])
    return I.call(dt(I, 'datetime'), list(d) + [4, 5, 6], {} if tz is None else {'tzinfo': tz}), (4, 5, 6, 'CET' if kind == 'other' else 'UTC')


# existing changelogs: lines, padding, extended
def entries(pads, ext=False):
    out = []
    exts = ext if isinstance(ext, list) else [ext] * len(pads)
    for i, p in enumerate(pads):
        out += [header((2020, 1, 9 - i), (1, 2, 3, 'CET') if exts[i] else None, p, cat('A', h(), ' <b@c>'), '1-%d' % (9 - i)), cat('- c', h())]
        if i < len(pads) - 1:
            out.append('')
    return out


LOGS = [
    lambda: ([], None, False, 0),
    lambda: (entries(['0']), '0', False, 0),
    lambda: (entries([' ']), ' ', False, 0),
    lambda: (entries(['']), '', False, 0),
    lambda: (entries([' 0']), ' 0', False, 0),
    lambda: (entries(['', '0']), '0', False, 0),
    lambda: (entries(['0', '']), '0', False, 0),
    lambda: (entries([' ', '0']), ' ', False, 0),
    lambda: (entries(['0', '0'], True), '0', True, 0),
    lambda: (entries(['', ' '], True), ' ', True, 0),
    lambda: (entries(['0', '0'], [True, False]), '0', True, 0),
    lambda: (entries(['0', '0', '0'], [False, True, True]), '0', False, 0),
    lambda: ([cat('# c', h()), ''] + entries(['0']), '0', False, 2),
    lambda: ([cat('# c', h())], None, False, 1),
    lambda: (entries(['0']) + ['', ''], '0', False, 0),
    lambda: ([''] + entries(['0']), '0', False, 1),
]


def body(log, extra=()):
    return ['Name: n', 'Version: 1', 'Release: 2', ''] + list(extra) + ['%changelog'] + log


def add(I):
    identity_expand(I)
    log, pad, ext, at = pick(LOGS, 'changelog')()
    kind = pick(['now', 'date', 'naive', 'utc', 'other'], 'timestamp')
    d = pick(DATES[:2] if pad == ' ' else DATES, 'date') if kind != 'now' else None
    entry = pick([lambda: (cat('- e', e := h()), [cat('- e', e)]), lambda: (VList(['- a', cat('- e', e := h())]), ['- a', cat('- e', e)])], 'entry')
    ev, content = entry()
    who = pick([lambda: ({'author': (a := cat('X', h()))}, a), lambda: ({'author': (a := cat('X', h())), 'email': (b := cat(h(), '@x'))}, cat(a, ' <', b, '>'))], 'author')
    kw, author = who()
    evr = pick([None, '3-4', cat('1:2-', h())], 'evr')
    if evr is not None:
        kw['evr'] = evr
    want_evr = evr if evr is not None else '%{?epoch:%{epoch}:}%{version}-%{release}'
    lines = body(log)
    s = new_spec(I, lines)
    if kind == 'now':
        t = None
        d = I.world.now_utc[:3]
        if ext:
            d = I.world.now[:3]
            t = tuple(I.world.now[3:]) + ('CET',)
    else:
        kw['timestamp'], t = stamp(I, kind, d)
    no_raise(I, 'raises', 'specfile/specfile.py: adding a changelog entry', lambda: I.call(I.getattr(s, 'add_changelog_entry'), [ev], kw), show_lines(lines))
    hd = header(d, t, '0' if pad is None else pad, author, want_evr)
    new = [hd] + content + ([''] if pad is not None else [])
    same_text(to_str(I, s), join_lines(body(log[:at] + new + log[at:])), 'added', 'specfile/specfile.py: the changelog after adding an entry')


def several(I):
    """every changelog section gets the entry once"""
    identity_expand(I)
    n = pick([2, 3], 'number of sections')
    empty = cur().pick(2, 'empty sections')
    a, b = cat('X', h()), cat(h(), '@x')
    lines = ['Name: n', 'Version: 1', 'Release: 2']
    want = list(lines)
    hd = header(DATES[0], None, '0', cat(a, ' <', b, '>'), '1-1')
    for i in range(n):
        hdr = ['%changelog', '%Changelog', '%CHANGELOG'][i]
        log = [] if empty else [header((2020, 1, 2 + i), None, '0', 'A', '1-0'), cat('- q', h())]
        lines += [hdr] + log
        want += [hdr, hd, '- e'] + ([''] if log else []) + log
    s = new_spec(I, lines)
    no_raise(I, 'raises', 'specfile/specfile.py: adding a changelog entry', lambda: I.call(I.getattr(s, 'add_changelog_entry'), ['- e'], {'author': a, 'email': b, 'evr': '1-1', 'timestamp': stamp(I, 'date', DATES[0])[0]}), show_lines(lines))
    same_text(to_str(I, s), join_lines(want), 'added', 'specfile/specfile.py: the changelog sections after adding an entry')


def absent(I):
    """without a changelog section nothing changes"""
    identity_expand(I)
    lines = ['Name: n', cat('Version: ', h()), '%prep', '%build', cat('x', h())]
    s = new_spec(I, lines)
    no_raise(I, 'raises', 'adding a changelog entry without a changelog', lambda: I.call(I.getattr(s, 'add_changelog_entry'), ['- e'], {'author': 'a'}), show_lines(lines))
    same_text(to_str(I, s), join_lines(lines), 'added', 'adding a changelog entry without a changelog changes the content')
    cm = I.call(I.getattr(s, 'changelog'), [])
    got = []
    with_view(I, cm, lambda v: got.append(v))
    if got[0] is not None:
        raise Violation('absent', 'specfile/specfile.py: the changelog of a spec file without one is not None', None, None)


def assemble(I):
    d = pick(DATES, 'date')
    kind = pick(['date', 'naive', 'utc', 'other'], 'timestamp')
    pad = pick(['0', ' ', '', None, ' 0'], 'padding')
    evr = pick([None, '1-1', cat('2:1.', h(), '-3'), cat(h(), '1~', h(), '-2.fc1')], 'evr')
    nl = cur().pick(2, 'newline')
    ts, t = stamp(I, kind, d)
    a = cat('X', h(), ' <q@r>')
    kw = {}
    if evr is not None:
        kw['evr'] = evr
    if pad is not None:
        kw['day_of_month_padding'] = pad
    if not nl:
        kw['append_newline'] = False
    E = get(I, 'changelog.ChangelogEntry')
    c = VList([cat('- ', h()), '- z'])
    o = no_raise(I, 'raises', 'assembling an entry', lambda: I.call(I.getattr(E, 'assemble'), [ts, a, c], kw), None)
    same_text(I.getattr(o, 'header'), header(d, t, '0' if pad is None else pad, a, evr), 'header', 'specfile/changelog.py: header of an assembled entry')
    got = I.getattr(o, 'content')
    same_lines(list(items(I, got)), list(c.items), 'content', 'specfile/changelog.py: content of an assembled entry')
    if got is c:
        raise Violation('aliased', 'specfile/changelog.py: an assembled entry shares its content with the list it was given', None, None)
    back(I, o, evr, t is not None, ('0' if pad is None else pad) if d[2] < 10 else None)
    # written and read again
    ch = I.call(get(I, 'changelog.Changelog'), [VList([o])])
    sec = I.call(get(I, 'sections.Section'), ['changelog'], {'data': I.call(I.getattr(ch, 'get_raw_section_data'), [])})
    again = items(I, I.call(get(I, 'changelog.Changelog.parse'), [sec]))
    if len(again) != 1:
        raise Violation('reread', 'specfile/changelog.py: an assembled entry is read as %d entries' % len(again), None, None)
    same_text(to_str(I, o), cat(I.getattr(o, 'header'), '\n', c.items[0], '\n- z\n'), 'str', 'specfile/changelog.py: text of an entry')
    same_text(I.getattr(again[0], 'header'), I.getattr(o, 'header'), 'reread', 'specfile/changelog.py: header of an entry written and read')
    same_lines(list(items(I, I.getattr(again[0], 'content'))), list(c.items), 'reread', 'specfile/changelog.py: content of an entry written and read')


def back(I, o, evr, ext, pad):
    g = I.getattr(o, 'evr')
    show = lambda env: repr(dom.conc(I.getattr(o, 'header'), env))
    if evr is None:
        if g is not None:
            if not is_str(g):
                raise Imprecise('evr')
            raise Violation('evr', 'specfile/changelog.py: an entry without EVR has one', None, show)
    else:
        same_text(g, evr, 'evr', 'specfile/changelog.py: EVR of an entry')
    x = I.getattr(o, 'extended_timestamp')
    if isinstance(x, bool) and x is not ext:
        raise Violation('extended', 'specfile/changelog.py: extended timestamp of an entry is %r' % x, None, show)
    if pad is not None:
        p = I.getattr(o, 'day_of_month_padding')
        if isinstance(p, str) and p != pad:
            raise Violation('padding', 'specfile/changelog.py: padding of the day of month is %r instead of %r' % (p, pad), None, show)


HEADERS = [
    ('* Thu Jan 13 2022 %s <a@b> - 1-2', '1-2', False, ''), ('* Thu Jan 13 2022 %s <a@b> 1-2', '1-2', False, ''), ('* Thu Jan 13 2022 %s <a@b> [1-2]', '1-2', False, ''),
    ('* Thu Jan 13 2022 %s <a@b> (3:1-2)', '3:1-2', False, ''), ('* Thu Jan 13 2022 %s <a@b> - 1-2:', '1-2', False, ''), ('* Thu Jan 13 2022 %s <a@b> - 1-2  ', '1-2', False, ''),
    ('* Thu Jan  3 2022 %s <a@b> - 3:1-2', '3:1-2', False, ' '), ('* Thu Jan 03 2022 %s', None, False, '0'), ('* Thu Jan  03 2022 %s', None, False, ' 0'), ('* Thu Jan 3 2022 %s - 1.0', None, False, ''),
    ('* Mon Oct 18 12:34:45 CEST 2021 %s <a@b> - 0.2-1', '0.2-1', True, ''), ('* Mon Oct  8 12:34:45 CEST 2021 %s <a@b> - 0.2-1', '0.2-1', True, ' '), ('* Mon Oct 08 23:59:59 UTC 2021 %s', None, True, '0'),
    ('* Mon Oct 31 00:00:00 CEST 2021 %s <a@b> - 1-1', '1-1', True, ''), ('* Mon Oct 8 2021 12:34:45 %s', None, False, ''), ('* Mon Oct 8 24:34:45 CEST 2021 %s', None, False, ''),
    ('* Sun Feb 20 2022 %s <a@b> - 1~rc1-0.1.fc35', '1~rc1-0.1.fc35', False, ''),
]


def reading(I):
    t, evr, ext, pad = pick(HEADERS, 'header')
    pre, _, post = t.partition('%s')
    o = I.call(get(I, 'changelog.ChangelogEntry'), [cat(pre, pick(['No Name', cat('N', h())], 'author'), post), VList(['- x'])])
    back(I, o, evr, ext, pad)


def parse_e(s):
    if s is None:
        return (0, '0', '')
    e, _, r = s.rpartition(':')
    v, _, rel = r.partition('-')
    return (int(e or 0), v, rel)


EV = [None, '1-1', '1-2', '2-1', '1:1-1', '0-1']


def filtering(n):
    def f(I):
        evs = [pick(EV, 'EVR %d' % i) for i in range(n)]
        E = get(I, 'changelog.ChangelogEntry')
        es = [I.call(E, ['* Thu Jan 13 2022 X <y>' + (' - ' + e if e else ''), VList(['- %d' % i])]) for i, e in enumerate(evs)]
        ch = I.call(get(I, 'changelog.Changelog'), [VList(list(es))])
        bounds = ['1-2', '1:0-1', '1'] if n > 2 else ['1-2', '1-1', '1:1-1', '0', '1', '3-1', 'a-b-c']
        for since in [None] + bounds:
            for until in [None] + bounds:
                kw = {}
                if since is not None:
                    kw['since'] = since
                if until is not None:
                    kw['until'] = until
                show = lambda env: repr((evs, since, until))
                r = no_raise(I, 'raises', 'specfile/changelog.py: filtering a changelog', lambda: I.call(I.getattr(ch, 'filter'), [], kw), show)
                got = items(I, r)
                s, u = (parse_e(x if x != 'a-b-c' else None) if x else None for x in (since, until))
                ge = [i for i, e in enumerate(evs) if s is None or label(parse_e(e), s) >= 0]
                le = [i for i, e in enumerate(evs) if u is None or label(parse_e(e), u) <= 0]
                want = es[ge[0]:le[-1] + 1] if ge and le else []
                if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                    raise Violation('filter', 'specfile/changelog.py: filtering a changelog returns %d entries instead of the %d between the bounds' % (len(got), len(want)), None, show)
                if len(items(I, ch)) != n:
                    raise Violation('filter', 'specfile/changelog.py: filtering changes the changelog', None, show)
    return f


def order(I):
    """entries are read oldest first, each with its own lines"""
    n = pick([1, 2, 3], 'entries')
    lines, want = [], []
    if cur().pick(2, 'predecessor'):
        lines += [cat('# ', h()), '']
    for i in range(n):
        hd = cat('* Thu Jan 13 2022 X', h(), ' - 1-%d' % (9 - i))
        c = [cat('- c', h())] + pick([[], ['  more', '- x'], ['', cat('- y', h())]], 'content')
        if i == 0:
            c = pick([[], ['* no entry'], [' ', '* no entry']], 'first lines') + c
        lines += [hd] + c + pick([[], [''], ['', '']], 'blank lines')
        want.insert(0, (hd, c))
    sec = I.call(get(I, 'sections.Section'), ['changelog'], {'data': VList(list(lines))})
    log = I.call(get(I, 'changelog.Changelog.parse'), [sec])
    got = items(I, log)
    if len(got) == n:
        text = []
        for hd, c in reversed(want):
            text += ([''] if text else []) + [hd] + c
        same_text(to_str(I, log), join_lines(text), 'str', 'specfile/changelog.py: text of a changelog')
    if len(got) != n:
        raise Violation('entries', 'specfile/changelog.py: a changelog of %d entries is read as %d' % (n, len(got)), None, show_lines(lines))
    for g, (hd, c) in zip(got, want):
        same_text(I.getattr(g, 'header'), hd, 'entries', 'specfile/changelog.py: header of an entry')
        same_lines(list(items(I, I.getattr(g, 'content'))), c, 'entries', 'specfile/changelog.py: content of an entry')


def OBLIGATIONS(tier):
    hk = {'labelCompare': hook}
    return [Obligation('add an entry', add, split=(len(LOGS), 5), quick=(8000, 60)), Obligation('several changelogs', several), Obligation('no changelog', absent),
            Obligation('assemble', assemble, split=(len(DATES), 4), quick=(4000, 60)), Obligation('headers', reading), Obligation('order', order, quick=(3000, 60))] + \
        [Obligation('filter %d entries' % n, filtering(n), split=len(EV), hooks=hk, quick=(2000, 60), max_steps=4000000) for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))]
