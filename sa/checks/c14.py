"""C14: the list of active macros is what RPM has defined."""
from ..scn import *

EXPLANATION = (
    'Abstract interpretation of the reading of the macro table RPM prints (level, used mark, name, options, body of any number of lines, summary line) '
    'over tables of up to three macros built from a vocabulary of names, options and bodies with free characters. The macros returned are compared '
    'field by field with the table; equality and hash of macros are decided over all pairs that differ in one field.')
RULE = 'macros returned == macros of the table in order, field by field; a == b <=> same fields, a == b => hash(a) == hash(b), a == other kind is False'
ASSUMPTIONS = ['the format is that of rpmDumpMacroTable(): "%3d%c NAME[(OPTIONS)][TAB BODY]", without the tab for an empty body',
               'no line of a body looks like the first line of a macro', 'lines of a body ending in a backslash are joined and an empty first line is dropped, as documented by the existing tests']

LEVELS = [-20, -15, -13, -11, -7, -5, -3, -1, 0]


def h(n='h'):
    return fresh_str(n, LETTER, 1, 1)


def bodies():
    a, b = fresh_str('a', TEXT & ~WS, 1, 1), fresh_str('b', NOT_NL & ~cmask('\\') & ~cmask('0123456789 \t-=:'), 1, 1)
    return [
        lambda: ([''], ''),
        lambda: ([a], a),
        lambda: ([cat('%{?x:', a, '} ')], cat('%{?x:', a, '} ')),
        lambda: (['%{nil}'], '%{nil}'),
        lambda: ([cat('%{expand:', a), cat('  ', b), '}'], cat('%{expand:', a, '\n  ', b, '\n}')),
        lambda: ([cat('x', a), '', b], cat('x', a, '\n\n', b)),
        lambda: ([cat('l', a, '\\'), cat('  m', b), 'n'], cat('l', a, '  m', b, '\nn')),
        lambda: ([' ', cat('k', a), b], cat(' \nk', a, '\n', b)),
        lambda: ([cat('t', a, '\tu')], cat('t', a, '\tu')),
        lambda: ([cat('(', a, ')\tv')], cat('(', a, ')\tv')),
        lambda: ([cat('%{lua:', a), 'local x = 1', '-- 5: x y', 'print(x)}'], cat('%{lua:', a, '\nlocal x = 1\n-- 5: x y\nprint(x)}')),
    ]


NAMES = ['m', '_x', 'a1', '__scm_apply_git', 'S', '0', 'Foo_Bar']
OPTS = [None, '(-)', '(qp:m:)', '(a:b)']


def table(I):
    n = 1 + cur().pick(3, 'number of macros')
    out, want = [], []
    for j in range(n):
        lv = pick(LEVELS, 'level') if j == 0 else LEVELS[j * 3]
        used = bool(cur().pick(2, 'used'))
        name = pick(NAMES, 'name') if n == 1 else NAMES[j]
        o = pick(OPTS, 'options') if n == 1 else OPTS[j % 2 * 2]
        ls, body = pick(bodies(), 'body %d' % j)()
        first = ['%3d%s %s%s' % (lv, '=' if used else ':', name, o or '')]
        if body != '':
            first += ['\t', ls[0]]
        out.append(cat(*first))
        out += ls[1:]
        want.append((name, o, body, lv, used))
    return out, want


def dump(how):
    def f(I):
        lines, want = table(I)
        enc = [ABytes(cat(l, '\n'), 'utf8', 'surrogateescape') for l in lines] + [b'======================== active 3 empty 0\n']
        I.hooks['stderr_lines'] = lambda I: list(enc)
        identity_expand(I)
        show = lambda env: repr(conc_lines(lines, env))
        try:
            if how == 'spec':
                def lines_(I):
                    for e in reversed(I.world.events):
                        if e[0] == 'expandMacro':
                            return list(enc) if isinstance(e[1], str) and e[1] == '%dump' else []
                        if e[0] == 'spec':
                            return []
                    return []
                I.hooks['stderr_lines'] = lines_
                s = new_spec(I, ['Name: n'])
                got = items(I, I.call(I.getattr(s, 'get_active_macros'), []))
            else:
                got = items(I, I.call(get(I, 'macros.Macros.dump'), []))
        finally:
            I.hooks.pop('stderr_lines', None)
        if len(got) != len(want):
            raise Violation('count', 'specfile/macros.py: %d macros are listed instead of %d' % (len(got), len(want)), None, show)
        for g, (name, o, body, lv, used) in zip(got, want):
            for a, w in (('name', name), ('options', o), ('level', lv), ('used', used)):
                v = I.getattr(g, a)
                if w is None or v is None:
                    same = v is w
                else:
                    same = I.eq(v, w)
                if not same:
                    raise Violation('field-' + a, 'specfile/macros.py: the %s of a macro is %r' % (a, v), None, show)
            same_text(I.getattr(g, 'body'), body, 'field-body', 'specfile/macros.py: the body of a macro differs')
    return f


def equality(I):
    c = get(I, 'macros.Macro')
    L = get(I, 'macros.MacroLevel')
    base = ['m', None, cat('b', h()), I.call(L, [-13]), False]
    mk = lambda a: I.call(c, list(a))
    x = mk(base)
    show = lambda env: repr(base)
    other = [(0, 'n'), (0, 'M'), (0, 'm_'), (0, '_m'), (1, '(x)'), (1, ''), (1, '()'), (2, cat(base[2], 'c')), (2, cat(base[2], ' ')), (2, cat(base[2], '\n')), (2, cat(' ', base[2])), (2, ''), (2, cat('B', base[2]))] + [(3, I.call(L, [k])) for k in (-20, -15, -11, -7, -5, -3, -1, 0)] + [(4, True)]
    which = cur().pick(len(other) + 3, 'pair')
    if which == 0:
        y, want = mk(base), True
    elif which == 1:
        y, want = 'm', False
    elif which == 2:
        y, want = mk(['m', None, base[2], -13, False]), True
    else:
        alt = list(base)
        alt[other[which - 3][0]] = other[which - 3][1]
        y, want = mk(alt), False
    if I.eq(x, y) != want:
        raise Violation('equality', 'specfile/macros.py: two macros %s' % ('with the same fields are unequal' if want else 'that differ are equal'), None, show)
    if want:
        a, b = I.call(I.builtins['hash'], [x]), I.call(I.builtins['hash'], [y])
        if not I.eq(a, b):
            raise Violation('hash', 'specfile/macros.py: equal macros have different hashes', None, show)


def OBLIGATIONS(tier):
    return [Obligation('reading the macro table', dump('dump'), split=3, quick=(12000, 40), thorough=(60000, 300)),
            Obligation('active macros of a spec file', dump('spec'), split=3, quick=(3000, 30), thorough=(20000, 200)),
            Obligation('equality of macros', equality)]
