"""C25: numbers of %patch macros."""
from ..scn import *
from .c10 import sect, h

EXPLANATION = (
    'Abstract interpretation of reading and setting the number of %patch macros in every notation and of adding and removing %patch macros by number in %prep sections with up to three of '
    'them. The lines written back are compared with the original lines plus or minus one line; what was written is read again.')
RULE = ('number(line) as RPM reads it (name suffix, else -P, else first positional argument, else 0); set(n): only the number in the line changes; add(n): one line, next to the macro with the nearest number, '
        'after it if that is not higher; remove(n): the line of the first macro with that number and nothing else')
ASSUMPTIONS = ['numbers are literal', 'at most three %patch macros']

# text before the number, after it, number of digits that can be replaced
FORMS = [
    ('%patch', ' -p1', 'suffix'),
    ('%patch', '', 'suffix'),
    ('%{?x:%patch', ' -p1}', 'suffix'),
    ('%patch -P ', ' -p1', 'P'),
    ('%patch -P', '', 'P'),
    ('%patch -p1 -P', ' -R', 'P'),
    ('%patch ', ' -p1', 'positional'),
    ('%patch -p1 ', '', 'positional'),
    ('  %patch  -p 1  -b .x ', '', 'positional'),
    ('%patch -P ', ' 7', 'P'),
]
NONE = ['%patch -p1', '%patch', '  %patch  -R']


def fail(key, msg, show=None):
    raise Violation(key, msg, None, show)


def parse(I, ls):
    return I.call(get(I, 'prep.Prep.parse'), [sect(I, 'prep', ls)])


def raw(I, p):
    return items(I, I.call(I.getattr(p, 'get_raw_section_data'), []))


def patch_numbers(I, p):
    c = get(I, 'prep.PatchMacro')
    return [I.getattr(m, 'number') for m in items(I, I.getattr(p, 'macros')) if I.truth(I.call(I.builtins['isinstance'], [m, c]))]


def notation(I):
    k = cur().pick(len(FORMS) + len(NONE), 'notation')
    w = 'specfile/prep.py: '
    other = ['%setup -q -n x', '', cat('echo ', h())]
    if k < len(FORMS):
        a, b, kind = FORMS[k]
        n = pick([0, 1, 5, 12, 100], 'number')
        txt = str(n)
        if kind == 'suffix':
            txt = pick([txt, '0' + txt], 'spelling')
        line = a + txt + b
    else:
        line, n, kind = NONE[k - len(FORMS)], 0, 'none'
    ls = other + [line, 'x']
    p = parse(I, ls)
    show = lambda env: repr(conc_lines(ls, env))
    got = no_raise(I, 'read', w + 'reading the number', lambda: patch_numbers(I, p), show)
    if got != [n]:
        fail('read', w + 'the number of a %%patch macro is %r instead of %d' % (got, n), show)
    new = pick([0, 3, 25], 'new number')
    m = [x for x in items(I, I.getattr(p, 'macros'))][-1]
    no_raise(I, 'set', w + 'setting the number', lambda: I.setattr(m, 'number', new), show)
    if I.getattr(m, 'number') != new:
        fail('set', w + 'the number set is not read back', show)
    if kind == 'none':
        exp = line.replace('%patch', '%%patch%d' % new)
    else:
        exp = a + str(new) + b
    out = raw(I, p)
    same_lines(out, other + [exp, 'x'], 'set', w + 'setting the number of a %patch macro changes something else')
    q = parse(I, out)
    if patch_numbers(I, q) != [new]:
        fail('set', w + 'the number set is not what is read again', lambda env: repr(conc_lines(out, env)))


def macro_line(style, n):
    return ['%%patch%d -p1', '%%patch -P %d -p1', '%%patch %d'][style] % n


def add(I):
    cnt = cur().pick(4, 'number of %patch macros')
    nums = [pick([1, 3, 7], 'number %d' % i) for i in range(cnt)]
    styles = [pick([0, 1, 2], 'style %d' % i) if i == 0 else i % 3 for i in range(cnt)]
    ls = ['%setup -q']
    for i in range(cnt):
        ls += ['# c%d' % i, macro_line(styles[i], nums[i])]
    ls += [cat('echo ', h()), '']
    n = pick([0, 1, 2, 3, 5, 9], 'new number')
    how = pick(['positional', 'old style', '-P'], 'style')
    kw = pick([{}, {'p': 1}, {'p': 0, 'R': True, 'b': '.orig'}], 'options')
    p = parse(I, ls)
    w = 'specfile/prep.py: '
    show = lambda env: '%r, add_patch_macro(%d, %s, %r)' % (conc_lines(ls, env), n, how, kw)
    args = [n] if how != '-P' else []
    k2 = dict(kw)
    if how == 'old style':
        k2['old_style_number'] = True
    elif how == '-P':
        k2['P'] = n
    no_raise(I, 'add', w + 'add_patch_macro()', lambda: I.call(I.getattr(p, 'add_patch_macro'), args, k2), show)
    out = raw(I, p)
    if len(out) != len(ls) + 1:
        fail('add', w + 'adding a %%patch macro changes the number of lines by %d' % (len(out) - len(ls)), show)
    q = parse(I, out)
    got = patch_numbers(I, q)
    if cnt:
        best = min(range(cnt), key=lambda i: abs(nums[i] - n))
        at = best + (1 if nums[best] <= n else 0)
    else:
        at = 0
    want = nums[:at] + [n] + nums[at:]
    if got != want:
        fail('add', w + 'after adding a %%patch macro the numbers are %r instead of %r' % (got, want), lambda env: show(env) + ' -> %r' % conc_lines(out, env))
    m = [x for x in items(I, I.getattr(q, 'macros'))][1 + at]
    o = I.getattr(m, 'options')
    for k, v in kw.items():
        g = I.getattr(o, k)
        if g != v:
            fail('options', w + 'the option -%s of an added %%patch macro is %r instead of %r' % (k, g, v), show)
    for k in 'pRbE':
        if k not in kw and I.getattr(o, k) not in (None, False):
            fail('options', w + 'an added %%patch macro has the option -%s nobody asked for' % k, show)
    # every other line is kept in order
    rest = list(out)
    line = items(I, I.call(I.getattr(m, 'get_raw_data'), []))[-1]
    for i, x in enumerate(rest):
        if dom.tri_eq(x, line) is True and rest[:i] == ls[:i]:
            del rest[i]
            break
    if len(rest) == len(ls):
        same_lines(rest, ls, 'add', w + 'adding a %patch macro changes another line')


def remove(I):
    cnt = 3
    nums = [pick([0, 1, 2], 'number %d' % i) for i in range(cnt)]
    s0 = pick([0, 1, 2], 'style')
    styles = [s0 + i for i in range(cnt)]
    ls, at = ['%setup -q', ''], []
    for i in range(cnt):
        ls.append(cat('# c', h()) if i == 1 else 'x')
        at.append(len(ls))
        ls.append('%patch -p1' if nums[i] == 0 and styles[i] % 3 == 1 else macro_line(styles[i] % 3, nums[i]))
    ls += ['', 'y']
    n = pick([0, 1, 2, 12], 'number')
    p = parse(I, ls)
    no_raise(I, 'remove', 'specfile/prep.py: remove_patch_macro()', lambda: I.call(I.getattr(p, 'remove_patch_macro'), [n]), show_lines(ls))
    exp = list(ls)
    if n in nums:
        del exp[at[nums.index(n)]]
    same_lines(raw(I, p), exp, 'remove', 'specfile/prep.py: removing the %%patch macro number %d does not remove exactly its line' % n)


def OBLIGATIONS(tier):
    q = (4000, 60)
    return [Obligation('notations', notation, quick=q), Obligation('adding', add, split=4, quick=q), Obligation('removing', remove, quick=q)]
