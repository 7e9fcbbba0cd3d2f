"""C23: the sources and patches views behave as numbered lists."""
from ..scn import *

EXPLANATION = (
    'Abstract interpretation of inserting, replacing and removing sources and patches over every numbering style (explicit, zero padded, implicit, '
    'mixed with source lists); the spec file is then re-read and the locations and numbers are compared with those of a plain list after the same operation.')
RULE = ('locations re-read after the operation == list of locations after the same list operation; numbers are distinct and increasing; '
        'numbers before the position are unchanged; other lines are unchanged')
ASSUMPTIONS = ['up to three tags and two list entries; locations with free text']

STYLES = [
    [],
    ['Source0: '],
    ['Source: '],
    ['Source0: ', 'Source1: '],
    ['Source0: ', 'Source1: ', 'Source2:   '],
    ['Source: ', 'Source: '],
    ['Source1:\t', 'Source4: '],
    ['Source00: ', 'Source01: '],
    ['Source9 :'],
    ['SOURCE9: '],
    ['Source8:', 'Source9:'],
    ['Source99   : '],
    ['Source: ', 'Source1: '],
    ['Source0: ', 'Source: '],
    ['Source007: '],
    ['Source1: ', 'Source1: ', 'Source5: '],
    ['Source5: ', 'Source2: '],
]
LISTS = [[], [[]], [['l0']], [['l0', 'l1']], [['l0'], ['m0']]]


def h(n='h'):
    return fresh_str(n, LETTER, 1, 1)


def build(kind, styles=STYLES, lists=LISTS):
    style = pick(styles, 'tags')
    nl = pick(lists, 'source lists')
    lines = ['Name: n']
    locs = []
    for i, s in enumerate(style):
        loc = cat('t%d' % i, h())
        if i == 1:
            lines.append(cat('# ', h()))
        locs.append(loc)
        lines.append(cat(s.replace('Source', kind).replace('SOURCE', kind.upper()), loc))
    lines.append('License: l')
    ll = []
    for es in nl:
        ll.append([])
        for e in es:
            loc = cat(e, h())
            locs.append(loc)
            ll[-1].append(loc)
    return Spec(kind, lines, ll), locs, style, nl


class Spec:
    """a preamble and source lists, as the sources view is built from them"""

    def __init__(self, kind, lines, lists):
        self.kind, self.lines, self.lists = kind, lines, lists
        self.kw = {}

    def view(self, I, kind=None):
        kind = kind or self.kind
        sec = get(I, 'sections.Section')
        tags = I.call(get(I, 'tags.Tags.parse'), [I.call(sec, ['package'], {'data': VList(list(self.lines))})])
        ll = [I.call(get(I, 'sourcelist.Sourcelist.parse'), [I.call(sec, ['sourcelist' if kind == 'Source' else 'patchlist'], {'data': VList(list(x))})]) for x in self.lists]
        return I.call(get(I, 'sources.Sources' if kind == 'Source' else 'sources.Patches'), [tags, VList(list(ll))], dict(self.kw)), tags, ll

    def use(self, I, do, kind=None):
        v, tags, ll = self.view(I, kind)
        do(v)
        self.lines = list(items(I, I.call(I.getattr(tags, 'get_raw_section_data'), [])))
        self.lists = [list(items(I, I.call(I.getattr(x, 'get_raw_section_data'), []))) for x in ll]

    def text(self):
        return list(self.lines) + [x for l in self.lists for x in ['%list'] + l]


def read(I, s, kind):
    return [(I.getattr(x, 'location'), I.getattr(x, 'number')) for x in items(I, s.view(I, kind)[0])]


def check(I, s, kind, want, before, pos, op, lines, numbers=True):
    got = no_raise(I, 're-read', 'reading %ss after %s' % (kind.lower(), op), lambda: read(I, s, kind), show_lines(lines))
    same_lines([x for x, _ in got], want, 'locations', 'specfile/sources.py: locations of %ss after %s' % (kind.lower(), op))
    ns = [n for _, n in got]
    if not all(isinstance(n, int) for n in ns):
        raise Imprecise('number')
    if numbers:
        for a, b in zip(ns, ns[1:]):
            if b <= a:
                raise Violation('numbers', 'specfile/sources.py: numbers of %ss are not increasing after %s' % (kind.lower(), op), None, lambda env: '%r in %r, from %r' % (ns, conc_lines(s.text(), env), conc_lines(lines, env)))
    if numbers is not None:
        if ns[:pos] != [n for _, n in before][:pos]:
            raise Violation('renumbered', 'specfile/sources.py: %s renumbers preceding %ss' % (op, kind.lower()), None, lambda env: repr((ns, conc_lines(lines, env))))
    return ns


def increasing(before):
    ns = [n for _, n in before]
    return all(b > a for a, b in zip(ns, ns[1:]))


def others(I, s, kind, lines, op):
    """lines that hold no source"""
    p = kind.lower()

    def keep(ls):
        out = []
        for x in ls:
            t = x if isinstance(x, str) else dom.norm(x.parts)[0]
            if not (isinstance(t, str) and t.lower().startswith(p)):
                out.append(x)
        return out
    same_lines(keep(s.lines), keep(lines), 'other-lines', 'specfile/sources.py: %s changes lines that hold no %s' % (op, p))


def ops(kinds=('Source', 'Patch')):
    def f(I):
        identity_expand(I)
        kind = pick(list(kinds), 'kind')
        s, locs, style, nl = build(kind)
        lines = s.text()
        pre = list(s.lines)
        before = read(I, s, kind)
        if len(before) != len(locs):
            raise Infeasible('read differently')
        mono = increasing(before)
        n = len(locs)
        op = pick(['insert', 'append', 'insert_numbered', 'set', 'del', 'remove', 'remove_numbered', 'set slice', 'del slice'], 'operation')
        new = cat('z', h('new'))
        want = list(locs)
        num = None
        pos = 0
        if op == 'insert':
            i = pick(list(range(-n - 1, n + 2)), 'index')
            want.insert(i, new)
            pos = len(want) - 1 - [dom.tri_eq(x, new) for x in reversed(want)].index(True)
            do = lambda v: I.call(I.getattr(v, 'insert'), [i, new])
        elif op == 'append':
            want.append(new)
            pos = n
            do = lambda v: I.call(I.getattr(v, 'append'), [new])
        elif op == 'insert_numbered':
            num = pick([0, 1, 2, 5, 10], 'number')
            do = lambda v: I.call(I.getattr(v, 'insert_numbered'), [num, new])
            if any(len(x.split(':')[0].rstrip()) == 6 for x in style):
                raise Infeasible('implicit numbering')
        elif op == 'remove':
            if not n:
                raise Infeasible('nothing to remove')
            j = pick(range(n), 'which')
            do = lambda v: I.call(I.getattr(v, 'remove'), [locs[j]])
            del want[j]
        elif op == 'remove_numbered':
            num = pick(sorted({k for _, k in before} | {7}), 'number')
            do = lambda v: I.call(I.getattr(v, 'remove_numbered'), [num])
            want = [l for l, k in before if k != num] if mono else None
        else:
            if not n:
                raise Infeasible('empty')
            i = pick(range(-n, n), 'index')
            if 'slice' in op:
                sl = I.call(I.builtins['slice'], [i, None])
                if op == 'set slice':
                    want[i:] = [cat('z%d' % q, h()) for q in range(len(want[i:]))]
                    val = VList(want[i:])
                    do = lambda v: I.call(I.getattr(v, '__setitem__'), [sl, val])
                else:
                    st = pick([None, -1, 2, -2], 'step')
                    sl = I.call(I.builtins['slice'], [i, None, st])
                    del want[i::st]
                    do = lambda v: I.call(I.getattr(v, '__delitem__'), [sl])
            elif op == 'set':
                want[i] = new
                do = lambda v: I.call(I.getattr(v, '__setitem__'), [i, new])
            else:
                del want[i]
                do = lambda v: I.call(I.getattr(v, '__delitem__'), [i])
        if want is None:
            raise Infeasible('numbers of the original are not increasing')
        no_raise(I, 'raises', op, lambda: s.use(I, do), show_lines(lines))
        what = op if op != 'insert' else 'insert at %d' % i
        if op == 'insert_numbered':
            got = read(I, s, kind)
            mine = [k for l, k in got if dom.tri_eq(l, new) is True]
            if mine != [num]:
                raise Violation('insert-numbered', 'specfile/sources.py: insert_numbered(%d) gives the source numbers %r' % (num, mine), None, lambda env: repr((conc_lines(lines, env), conc_lines(s.text(), env))))
            same_lines([l for l, k in got if dom.tri_eq(l, new) is not True], locs, 'locations', 'specfile/sources.py: insert_numbered() changes other %ss' % kind.lower())
            if mono:
                pos = len([k for _, k in before[:len(style)] if k < num])
                check(I, s, kind, want[:pos] + [new] + want[pos:], before, pos, what, lines, not nl or not any(nl))
            else:
                pos = [dom.tri_eq(l, new) for l, _ in got].index(True)
                check(I, s, kind, want[:pos] + [new] + want[pos:], before, pos, what, lines, False)
        elif op in ('insert', 'append'):
            check(I, s, kind, want, before, pos, what, lines, mono)
        elif op in ('set', 'set slice'):
            check(I, s, kind, want, before, n, what, lines, False)
            if [k for _, k in read(I, s, kind)] != [k for _, k in before]:
                raise Violation('renumbered', 'specfile/sources.py: replacing a location renumbers %ss' % kind.lower(), None, show_lines(lines))
        else:
            check(I, s, kind, want, before, 0, what, lines, False)
        if op in ('set', 'set slice', 'del', 'remove', 'remove_numbered', 'insert', 'append', 'insert_numbered'):
            pass
        if not (op in ('del', 'remove', 'remove_numbered', 'del slice') and len(style) > 1):
            others(I, s, kind, pre, what)
    return f


def equal_locations(I):
    """several sources with the same location"""
    identity_expand(I)
    kind = pick(['Source', 'Patch'], 'kind')
    style = pick([['Source0: ', 'Source1: ', 'Source2: '], ['Source: ', 'Source: ', 'Source: '], ['Source1: '], []], 'tags')
    nl = pick([[], [3], [1, 2]], 'source lists')
    a, b = cat('a', h()), cat('b', h())
    locs = []

    def one():
        locs.append(pick([a, b], 'location'))
        return locs[-1]
    lines = ['Name: n']
    for x in style:
        lines.append(cat(x.replace('Source', kind), one()))
    lines += ['', 'License: l']
    s = Spec(kind, lines, [[one() for _ in range(k)] for k in nl])
    if len(locs) < 2:
        raise Infeasible('too few')
    text = s.text()
    same_a = [dom.tri_eq(x, a) is True for x in locs]
    show = show_lines(text)
    v = s.view(I)[0]
    for x, isa in ((a, True), (b, False)):
        n = same_a.count(isa)
        c = I.call(I.getattr(v, 'count'), [x])
        if c != n:
            raise Violation('count', 'specfile/sources.py: count() of a location is %r instead of %d' % (c, n), None, show)
        if bool(I.truth(I.call(I.getattr(v, '__contains__'), [x]))) != (n > 0):
            raise Violation('membership', 'specfile/sources.py: membership of a location is wrong', None, show)
    op = pick(['remove', 'add again'], 'operation')
    if op == 'remove':
        want = [x for x, isa in zip(locs, same_a) if not isa]
        no_raise(I, 'raises', 'remove', lambda: s.use(I, lambda v: I.call(I.getattr(v, 'remove'), [a])), show)
    else:
        s.kw = {'allow_duplicates': True}
        want = locs + [a]
        no_raise(I, 'raises', 'append', lambda: s.use(I, lambda v: I.call(I.getattr(v, 'append'), [a])), show)
    same_lines([x for x, _ in read(I, s, kind)], want, 'locations', 'specfile/sources.py: locations of %ss after %s of a location that is there more than once' % (kind.lower(), op))
    if s.lines[0] != 'Name: n' or s.lines[-1] != 'License: l':
        raise Violation('other-lines', 'specfile/sources.py: %s changes other lines' % op, None, show)


def patch_after_source(I):
    """the first patch goes after the last source, in the style of the sources"""
    identity_expand(I)
    style = pick(STYLES[1:], 'tags')
    lines = ['Name: n'] + [cat(x, 't%d' % i, h()) for i, x in enumerate(style)] + pick([[], ['SourceLicense: MIT'], ['Requires: x', 'NoSource: 0']], 'tags after') + ['License: l']
    s = Spec('Patch', list(lines), [])
    new = cat('z', h('new'))
    how = pick(['append', 'insert_numbered'], 'operation')
    num = 0
    if how == 'append':
        no_raise(I, 'raises', 'append', lambda: s.use(I, lambda v: I.call(I.getattr(v, 'append'), [new])), show_lines(lines))
    else:
        num = pick([0, 3, 12], 'number')
        no_raise(I, 'raises', 'insert_numbered', lambda: s.use(I, lambda v: I.call(I.getattr(v, 'insert_numbered'), [num, new])), show_lines(lines))
    got = read(I, s, 'Patch')
    same_lines([x for x, _ in got], [new], 'locations', 'specfile/sources.py: the first patch after %s' % how)
    if not any(len(x.split(':')[0].rstrip()) == 6 for x in style) and [k for _, k in got] != [num]:
        raise Violation('insert-numbered', 'specfile/sources.py: the first patch gets number %r instead of %d' % (got[0][1], num), None, show_lines(lines))
    out = s.lines
    at = len(style) + 1
    same_lines(out[:at] + out[at + 1:], lines, 'other-lines', 'adding the first patch changes other lines or is not done after the sources')


def through_spec(I):
    """the settings of the accessors, and add_patch()"""
    identity_expand(I)
    kind = pick(['Source', 'Patch', 'add_patch'], 'accessor')
    k = 'Patch' if kind == 'add_patch' else kind
    have = pick([[], ['%s0: ' % k], ['%s3: ' % k, '%s7: ' % k], ['%s0001: ' % k]], 'present')
    lines = ['Name: n'] + [cat(x, 't%d' % i, h()) for i, x in enumerate(have)] + ['License: l', '%description', cat('d', h())]
    nums = [int(x[len(k):-2]) for x in have]
    s = new_spec(I, lines)
    new = cat('z', h('new'))
    notes = []
    if kind == 'add_patch':
        kw = {}
        num = pick([None, 12], 'number')
        if num is not None:
            kw['number'] = num
        ini = pick([None, 5, 1], 'initial number')
        if ini is not None:
            kw['initial_number'] = ini
        digits = pick([None, 1, 2], 'digits')
        if digits is not None:
            kw['number_digits'] = digits
        notes = pick([[], [cat('c', h())], [cat('c', h()), 'e']], 'comment')
        if notes:
            kw['comment'] = cat(*[x for i, l in enumerate(notes) for x in (['\n'] if i else []) + [l]])
        want = num if num is not None else max(max(nums, default=-1) + 1, ini or 0)
        name = 'Patch%0*d' % (digits or 4, want)
        no_raise(I, 'raises', 'specfile/specfile.py: add_patch()', lambda: I.call(I.getattr(s, 'add_patch'), [new], kw), show_lines(lines))
    else:
        kw = pick([{}, {'default_to_implicit_numbering': True}, {'default_source_number_digits': 3}, {'default_source_number_digits': 0}, {'allow_duplicates': True}], 'settings')
        want = max(nums, default=-1) + 1
        if kw.get('allow_duplicates') and have:
            new = lines[1]
            new = cat(*dom.norm(new.parts)) if not isinstance(new, str) else new
            # the location of the first one
            new = I.getitem(I.call(I.getattr(new, 'split'), [': ']), 1)
        name = k + ('' if 'default_to_implicit_numbering' in kw or kw.get('default_source_number_digits') == 0 else '%0*d' % (kw.get('default_source_number_digits', 1), want))
        e = no_raise(I, 'raises', 'adding a %s' % k.lower(), lambda: with_view(I, I.call(I.getattr(s, k.lower() + ('s' if k == 'Source' else 'es')), [], kw), lambda v: I.call(I.getattr(v, 'append'), [new])), show_lines(lines))
        if e is not None:
            raise Violation('raises', 'specfile/specfile.py: adding a %s raises %s' % (k.lower(), exc_name(e)), None, show_lines(lines))
    if have:
        d = len(have[0]) - len(k) - 2
        name = '%s%0*d' % (k, d, want)
    out = items(I, I.call(I.getattr(to_str(I, s), 'splitlines'), []))
    pos = len(have) + 1 if have else lines.index('License: l') + 1
    same_lines(out[:pos] + out[pos + 1 + len(notes):], lines, 'other-lines', 'specfile/specfile.py: adding a %s changes other lines or adds it elsewhere' % k.lower())
    same_lines(out[pos:pos + len(notes)], [cat('# ', x) for x in notes], 'comment', 'specfile/specfile.py: the comment of an added patch')
    line = out[pos + len(notes)]
    if not any(dom.tri_eq(line, cat(name, ':', ' ' * q, new)) is True for q in range(6)):
        raise Violation('name', 'specfile/specfile.py: the line of an added %s' % k.lower(), None, lambda env: '%r instead of %s: %r, from %r' % (dom.conc(line, env), name, dom.conc(new, env), conc_lines(lines, env)))


def unordered(I):
    """add_patch() where the last patch does not have the highest number, or is in a list"""
    identity_expand(I)
    have = pick([['Patch7: ', 'Patch3: '], ['Patch7: ', 'Patch3: ', 'Patch9: ', 'Patch4: '], ['Patch3: '], ['Patch0002: ', 'Patch0001: '], []], 'patches')
    pl = pick([[], ['l0'], ['l0', 'l1']], 'patch list')
    lines = ['Name: n'] + [cat(x, 't%d' % i, h()) for i, x in enumerate(have)] + ['License: l', '%description', cat('d', h())] + (['%patchlist'] + [cat(x, h()) for x in pl] if pl else [])
    nums = [int(x[5:-2]) for x in have]
    top = max(nums + [(nums[-1] if nums else -1) + len(pl)])
    s = new_spec(I, lines)
    new = cat('zzz', h('new'))
    num = pick([None, top + 1, top + 4], 'number')
    kw = {} if num is None else {'number': num}
    notes, end = pick([([], ''), ([cat('c', h())], '\n'), ([cat('c', h()), '', 'e'], '\n'), ([cat('c', h()), 'e'], '')], 'comment')
    if notes:
        kw['comment'] = cat(join_lines(notes), '') if end else cat(*[x for i, l in enumerate(notes) for x in (['\n'] if i else []) + [l]])
    no_raise(I, 'raises', 'specfile/specfile.py: add_patch()', lambda: I.call(I.getattr(s, 'add_patch'), [new], kw), show_lines(lines))
    out = items(I, I.call(I.getattr(to_str(I, s), 'splitlines'), []))
    at = [i for i, l in enumerate(out) if any(isinstance(x, str) and 'zzz' in x for x in ([l] if isinstance(l, str) else dom.norm(l.parts)))]
    if len(at) != 1:
        raise Violation('added', 'specfile/specfile.py: add_patch() adds %d lines with the location' % len(at), None, lambda env: repr((conc_lines(lines, env), conc_lines(out, env))))
    at = at[0]
    k = len(notes)
    same_lines(out[:max(0, at - k)] + out[at + 1:], lines, 'other-lines', 'specfile/specfile.py: adding a patch changes other lines')
    same_lines(out[at - k:at], [cat('# ', x) for x in notes], 'comment', 'specfile/specfile.py: the comment of an added patch')
    want = top + 1 if num is None else num
    d = len(have[0]) - 7 if have else 4
    if not any(dom.tri_eq(out[at], cat('Patch%0*d:' % (d, want), ' ' * q, new)) is True for q in range(6)):
        raise Violation('name', 'specfile/specfile.py: the line of an added patch', None, lambda env: '%r instead of number %d, from %r' % (dom.conc(out[at], env), want, conc_lines(lines, env)))


def OBLIGATIONS(tier):
    return [Obligation('patches in any order', unordered, split=5, quick=(2000, 40)), Obligation('through the spec file', through_spec, split=(3, 4), quick=(3000, 40)), Obligation('operations', ops(), split=(2, len(STYLES)), quick=(20000, 60), hooks={}), Obligation('equal locations', equal_locations, split=(2, 4), quick=(3000, 40)), Obligation('first patch', patch_after_source, split=len(STYLES) - 1)]
