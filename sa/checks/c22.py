"""C22: an option that is set or removed is read back so, and nothing else changes."""
import itertools

from ..scn import *

EXPLANATION = (
    'Abstract interpretation of setting and removing options and positional arguments over option strings built from flags, options with '
    'separate, attached, quoted or missing arguments and positional arguments. The options are rendered, tokenized again, and every option and '
    'positional argument of the result is compared with the expected one.')
RULE = 'reading the re-tokenized string: edited option == requested value (or default/absent), every other option and positional argument unchanged'
ASSUMPTIONS = ['each option occurs at most once', 'values are not empty, do not begin with a dash and contain no backslash or percent sign', 'up to four items']

OPTSTRING = 'a:b:cDn:Tq'
DEFAULTS = {'n': 'def'}


def h(n='h'):
    return fresh_str(n, LETTER, 1, 1)


# (text, option, value) ; option None: positional
ITEMS = [
    lambda: ('-q', 'q', True),
    lambda: ('-T', 'T', True),
    lambda: (cat('-n ', x := h()), 'n', x),
    lambda: (cat('-n', x := h()), 'n', x),
    lambda: (cat('-n "', x := cat(h(), ' ', h()), '"'), 'n', x),
    lambda: (cat("-n '", x := cat(h(), ' ', h()), "'"), 'n', x),
    lambda: (cat('-n"', x := cat('w', h()), '"'), 'n', x),
    lambda: ('-a 1', 'a', 1),
    lambda: ('-a0', 'a', 0),
    lambda: (x := cat('p', h()), None, x),
    lambda: (cat('"', x := cat(h(), ' q'), '"'), None, x),
    lambda: ('7', None, 7),
    lambda: ('\u00bd', None, '\u00bd'),
    lambda: (cat('\\"', x := h()), None, cat('"', x)),
]
SEPS = [' ', '  ', '\t']

STRVALS = [lambda: cat('v', h()), lambda: cat('v', h(), ' w'), lambda: cat('v', h(), '"'), lambda: cat("v'", h(), '\t'), lambda: '12', lambda: cat('"', h(), "' "), lambda: cat(h(), '=-', h()), lambda: '\u00bd', lambda: '1\u00b2']


PIECES = []


def strings(n, items=ITEMS):
    out, opts, pos = [], {}, []
    PIECES.clear()
    for i in range(cur().pick(n + 1, 'number of items')):
        t, o, v = pick(items, 'item %d' % i)()
        if o is not None and o in opts:
            raise Infeasible('repeated option')
        if i:
            out.append(SEPS[i % 3])
        out.append(t)
        PIECES.append((o, v, t))
        if o is None:
            pos.append(v)
        else:
            opts[o] = v
    return cat(*out) if out else '', opts, pos


def new(I, s, optstring=OPTSTRING, defaults=DEFAULTS):
    O = get(I, 'options.Options')
    return I.call(O, [I.call(I.getattr(O, 'tokenize'), [s]), optstring, mkdict(I, defaults)])


def mkdict(I, d):
    r = I.call(I.builtins['dict'], [])
    for k, v in d.items():
        I.call(I.getattr(r, '__setitem__'), [k, v])
    return r


def num(v):
    return int(v) if isinstance(v, str) and v.isdecimal() else v


def same(got, want, key, msg, show):
    if isinstance(got, (Noop, Opq)):
        raise Imprecise('unmodelled value')
    want = num(want)
    if is_str(want):
        if is_str(got):
            if dom.tri_eq(got, want) is True:
                return
            raise Violation(key, msg, lambda env: dom.conc(got, env) != dom.conc(want, env), show)
    elif not is_str(got) and type(got) is type(want) and got == want:
        return
    raise Violation(key, msg + ': %r instead of %r' % (got, want), None, show)


def verify(I, o, opts, pos, what, src, fresh=True):
    def show(env):
        return '%s: %r became %r' % (what, dom.conc(src, env), dom.conc(text, env))
    text = to_str(I, o)
    for again in (False, True):
        if again:
            o = no_raise(I, 'retokenize', 'reading options after %s' % what, lambda: new(I, text), show)
        where = ' (re-read)' if again else ''
        for n in 'abcDnTq':
            want = opts.get(n)
            if want is None:
                want = DEFAULTS.get(n) if OPTSTRING.index(n) + 1 < len(OPTSTRING) and OPTSTRING[OPTSTRING.index(n) + 1] == ':' else False
            got = I.getattr(o, n)
            same(got, want, 'option', 'specfile/options.py: option -%s after %s%s' % (n, what, where), show)
        got = items(I, I.getattr(o, 'positional'))
        if len(got) != len(pos):
            raise Violation('positional', 'specfile/options.py: positional arguments after %s%s' % (what, where), None, show)
        for g, w in zip(got, pos):
            same(g, w, 'positional', 'specfile/options.py: positional argument after %s%s' % (what, where), show)
        names = items(I, o)
        if not all(isinstance(x, str) for x in names):
            raise Imprecise('names')
        if set(names) != set(opts):
            raise Violation('names', 'specfile/options.py: names of options after %s%s' % (what, where), None, show)
        if I.call(I.builtins['len'], [o]) != len(opts):
            raise Violation('names', 'specfile/options.py: number of options after %s%s' % (what, where), None, show)


def reading(n):
    def f(I):
        s, opts, pos = strings(n)
        verify(I, new(I, s), opts, pos, 'reading', s)
    return f


def without(I, o, gone, what, s):
    """removing items removes their text with the white space on one side, and nothing else"""
    out = []
    for mask in itertools.product((0, 1), repeat=len(gone)):
        texts = [t for _, _, t in PIECES]
        seps = [''] + [SEPS[i % 3] for i in range(1, len(texts))] + ['']
        for i, side in zip(sorted(gone, reverse=True), mask):
            # the separation before the item (or the one after it) goes with it
            if i + side < len(seps) - 1 or side == 0:
                del seps[i + side]
            else:
                del seps[i]
            del texts[i]
        if texts:
            seps[0] = seps[-1] = ''
        out.append(cat('', *[x for i, t in enumerate(texts) for x in (seps[i], t)]))
    text = to_str(I, o)
    if not any(dom.tri_eq(text, x) is True for x in out):
        x = out[0]
        raise Violation('text', 'specfile/options.py: the other text after %s' % what, lambda env: dom.conc(text, env) not in [dom.conc(q, env) for q in out], lambda env: '%s: %r became %r' % (what, dom.conc(s, env), dom.conc(text, env)))


def option_ops(n):
    def f(I):
        op = pick(['set flag', 'clear flag', 'None flag', 'del flag', 'set value', 'set int', 'None value', 'del value'], 'operation')
        s, opts, pos = strings(n)
        o = new(I, s)
        how = cur().pick(2, 'item access')

        def st(k, v):
            no_raise(I, 'raises', op, lambda: I.call(I.getattr(o, '__setitem__'), [k, v]) if how else I.setattr(o, k, v), show_lines([s]))

        def dl(k):
            no_raise(I, 'raises', op, lambda: I.call(I.getattr(o, '__delitem__'), [k]) if how else I.delattr(o, k), show_lines([s]))
        want = dict(opts)
        if op.endswith('flag'):
            k = pick(['q', 'T'], 'option')
            if op == 'set flag':
                st(k, True)
                want[k] = True
            else:
                if op == 'clear flag':
                    st(k, False)
                elif op == 'None flag':
                    st(k, None)
                else:
                    dl(k)
                want.pop(k, None)
        else:
            k = pick(['n', 'a'], 'option')
            if op == 'set value':
                v = pick(STRVALS, 'value')()
                st(k, v)
                want[k] = v
            elif op == 'set int':
                v = pick([0, 3, 12], 'value')
                st(k, v)
                want[k] = v
            else:
                if op == 'None value':
                    st(k, None)
                else:
                    dl(k)
                want.pop(k, None)
        verify(I, o, want, pos, op, s)
        if k not in want:
            without(I, o, [i for i, p in enumerate(PIECES) if p[0] == k], op, s)
    return f


def missing_argument(I):
    """an option whose argument is missing gets one"""
    s = pick(['-n', '-q -n', '-n -q', '-q -n -T', '-n  '], 'options')
    o = new(I, s)
    v = pick([lambda: cat('v', h()), lambda: 5, lambda: cat('v', h(), ' w')], 'value')()
    I.setattr(o, 'n', v)
    opts = {'n': v}
    for k in 'qT':
        if '-' + k in s:
            opts[k] = True
    verify(I, o, opts, [], 'set value', s)


def repeated(I):
    """of an option given several times the last one counts, and is the one that is set"""
    s, opts, pos = pick([lambda: (cat('-n ', h(), ' -n ', x := h()), {'n': x}, []), lambda: (cat('-a 1 -q -a2 ', y := cat('p', h()), ' -q'), {'a': 2, 'q': True}, [y]),
                         lambda: (cat('-n', h(), ' -n "', x := cat(h(), ' w'), '" -a1'), {'n': x, 'a': 1}, []), lambda: (cat("-n '", h(), " b' -T -n", x := h()), {'n': x, 'T': True}, [])], 'options')()
    o = new(I, s)
    op = pick(['read', 'set', 'set int', 'set flag'], 'operation')
    want = dict(opts)
    k = 'n' if 'n' in opts else 'a'
    if op in ('set', 'set int'):
        v = pick(STRVALS, 'value')() if op == 'set' else 5
        I.setattr(o, k, v)
        want[k] = v
    elif op == 'set flag':
        I.setattr(o, 'q', True)
        want['q'] = True
    verify(I, o, want, pos, op + ' with a repeated option', s)


def positional_ops(n):
    def f(I):
        op = pick(['append', 'insert', 'set', 'del', 'del slice', 'assign', 'set slice', 'clear', 'extend'], 'operation')
        s, opts, pos = strings(n)
        o = new(I, s)
        p = I.getattr(o, 'positional')
        want = list(pos)
        v = pick(STRVALS, 'value')() if op in ('append', 'insert', 'set') else None
        k = len(pos)
        call = lambda name, *a: no_raise(I, 'raises', 'positional ' + op, lambda: I.call(I.getattr(p, name), list(a)), show_lines([s]))
        if op == 'append':
            call('append', v)
            want.append(v)
        elif op == 'insert':
            i = pick(list(range(-k, k + 2)), 'index')
            call('insert', i, v)
            want.insert(i, v)
        elif op in ('assign', 'extend'):
            vs = [cat('v', h()), 3]
            if op == 'assign':
                no_raise(I, 'raises', 'positional ' + op, lambda: I.setattr(o, 'positional', VList(list(vs))), show_lines([s]))
                want = vs
            else:
                call('extend', VList(list(vs)))
                want += vs
        elif op == 'clear':
            call('clear')
            want = []
        else:
            if not k:
                raise Infeasible('empty')
            i = pick(list(range(-k, k)), 'index')
            if op == 'set':
                call('__setitem__', i, v)
                want[i] = v
            elif op == 'del':
                call('__delitem__', i)
                del want[i]
            elif op == 'set slice':
                vs = [cat('v%d' % q, h()) for q in range(len(want[i:]))]
                call('__setitem__', I.call(I.builtins['slice'], [i, None]), VList(list(vs)))
                want[i:] = vs
            else:
                st = pick([None, -1, 2, -2], 'step')
                call('__delitem__', I.call(I.builtins['slice'], [i, None, st]))
                del want[i::st]
        verify(I, o, opts, want, 'positional ' + op, s)
        if op in ('del', 'del slice', 'clear'):
            at = [i for i, p in enumerate(PIECES) if p[0] is None]
            gone = at if op == 'clear' else [at[i]] if op == 'del' else at[i::st]
            without(I, o, gone, 'positional ' + op, s)
    return f


def in_macro(I):
    """options of a %setup macro and of a section"""
    identity_expand(I)
    which = pick(['prep', 'section'], 'owner')
    x = cat('v', h())
    if which == 'prep':
        sec = I.call(get(I, 'sections.Section'), ['prep'], {'data': VList([pick(['%setup', '%setup -q', '%setup -n a -q'], 'line')])})
        p = I.call(get(I, 'prep.Prep.parse'), [sec])
        before = I.getattr(I.getattr(I.getattr(p, 'setup'), 'options'), 'q')
        I.setattr(I.getattr(I.getattr(p, 'setup'), 'options'), 'n', x)
        p = I.call(get(I, 'prep.Prep.parse'), [I.call(get(I, 'sections.Section'), ['prep'], {'data': I.call(I.getattr(p, 'get_raw_section_data'), [])})])
        o = I.getattr(I.getattr(p, 'setup'), 'options')
        same(I.getattr(o, 'n'), x, 'option', 'specfile/prep.py: option of a %setup macro is not read back', lambda env: dom.conc(x, env))
        same(I.getattr(o, 'q'), before, 'option', 'specfile/prep.py: another option of a %setup macro changed', lambda env: dom.conc(x, env))
    else:
        ss = I.call(get(I, 'sections.Sections.parse'), [VList(['%' + pick(['files', 'files sub', 'files -n other'], 'section'), 'x'])])
        sec = items(I, ss)[1]
        x = pick(['vx', '%{name}.lang'], 'value')
        head = to_str(I, I.getattr(sec, 'id'))
        I.setattr(I.getattr(sec, 'options'), 'f', x)
        same_text(I.getattr(sec, 'id'), cat(head, ' -f ', x), 'section', 'specfile/sections.py: identification of a section after setting an option')
        ss = I.call(get(I, 'sections.Sections.parse'), [I.call(I.getattr(ss, 'get_raw_data'), [])])
        if len(items(I, ss)) < 2:
            raise Violation('section', 'specfile/sections.py: a section with an option is not read back', None, lambda env: dom.conc(x, env))
        same(I.getattr(I.getattr(items(I, ss)[1], 'options'), 'f'), x, 'option', 'specfile/sections.py: option of a section is not read back', lambda env: dom.conc(x, env))


def OBLIGATIONS(tier):
    n = 3 if tier == 'quick' else 4
    return [Obligation('reading', reading(n), split=n + 1, quick=(6000, 60)), Obligation('set and remove options', option_ops(2 if tier == 'quick' else 3), split=(8, 3), quick=(40000, 80)),
            Obligation('missing argument', missing_argument), Obligation('positional arguments', positional_ops(2 if tier == 'quick' else 3), split=(9, 3), quick=(40000, 80)),
            Obligation('repeated options', repeated), Obligation('owners', in_macro)]
