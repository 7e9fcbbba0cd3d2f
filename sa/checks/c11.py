"""C11: validity of conditional branches."""
from ..scn import *

EXPLANATION = (
    'Abstract interpretation of condition processing over every sequence of condition keywords and other lines up to the bound, with the truth of '
    'each expression left open (partitioned). The validity reported for every line is compared with a reference automaton of nested blocks; the '
    'lines themselves must come out one to one.')
RULE = ('valid(line) == all enclosing branches are taken; a branch is taken iff its enclosing branch is, no earlier branch of the block was and its '
        'condition holds; condition lines have the validity of the enclosing branch; stray %else/%elif/%endif are ordinary lines')
ASSUMPTIONS = ['sequences of up to 5 (quick) or 7 (thorough) lines', 'truth of an expression is what RPM reports for it (opaque)', 'no conditions inside multi-line values']


class Truth:
    """lazily partitioned truth values of expressions"""

    def __init__(self):
        self.t = {}

    def of(self, e):
        if e not in self.t:
            self.t[e] = bool(cur().pick(2, 'condition %s holds' % e))
        return self.t[e]


def setup(I, t, lines_expand=None):
    def expand(I, s):
        if not isinstance(s, str):
            return s
        if s.startswith('%{expr:') and s.endswith('}'):
            e = s[7:-1].strip()
            if e in FIXED:
                r = FIXED[e]
                if r == 'error':
                    I.raise_cls(get(I, 'exceptions.RPMException'), [VList([])])
                return s if r is None else r
            return '1' if t.of(e) else '0'
        if s == '%{_target_cpu}':
            return 'x86_64'
        if s == '%{_target_os}':
            return 'linux'
        if lines_expand and s in lines_expand:
            return lines_expand[s]
        return s
    I.world.expand = expand


# value of %{expr:...} -> truth
FIXED = {'zero': '0', 'one': '1', 'two': '2', 'minus': '-1', 'empty': '', 'text': 'abc', 'undef': None, 'double': '00'}
TRUE = {'one', 'two', 'minus', 'text'}


def holds(t, kwd, e):
    if e in FIXED:
        return e in TRUE
    if kwd.endswith('arch') or kwd.endswith('os'):
        m = ('x86_64' if kwd.endswith('arch') else 'linux') in e.split()
        return (not m) if kwd in ('%ifnarch', '%ifnos') else m
    return t.of(e)


def oracle(lines, t):
    """lines: (text, kind, keyword, expression)"""
    out = []
    stack = []          # [taken, branch, seen else]
    for text, kind, kwd, e in lines:
        top = all(x[1] for x in stack)
        outer = all(x[1] for x in stack[:-1])
        if kind == 'text':
            out.append(top)
        elif kind == 'if':
            out.append(top)
            b = holds(t, kwd, e) if top else False
            stack.append([b, b, False])
        elif not stack:
            out.append(top)
        elif kind == 'endif':
            out.append(outer)
            stack.pop()
        else:
            out.append(outer)
            fr = stack[-1]
            if fr[2]:
                raise Infeasible('RPM refuses a branch after %else')
            fr[2] = kind == 'else'
            b = outer and not fr[0] and (kind == 'else' or holds(t, kwd, e))
            fr[1] = b
            fr[0] = fr[0] or b
    return out


def well_formed(lines):
    stack = []
    for _, kind, _, _ in lines:
        if kind == 'if':
            stack.append(False)
        elif kind == 'endif' and stack:
            stack.pop()
        elif kind in ('elif', 'else') and stack:
            if stack[-1]:
                raise Infeasible('RPM refuses a branch after %else')
            stack[-1] = kind == 'else'


def run(I, lines, t, mds=True, what='process_conditions'):
    ls = [x[0] for x in lines]
    well_formed(lines)
    m = I.call(get(I, 'macro_definitions.MacroDefinitions.parse'), [VList(list(ls))]) if mds else None
    res = no_raise(I, 'raises', 'process_conditions()', lambda: items(I, I.call(get(I, 'conditions.process_conditions'), [VList(list(ls))] + ([m] if mds else []))), show_lines(ls))
    got = [items(I, x) for x in res]
    same_lines([x[0] for x in got], ls, 'lines', 'specfile/conditions.py: processing conditions does not return the lines one to one')
    want = oracle(lines, t)
    for i, (g, w) in enumerate(zip(got, want)):
        if lines[i][3] == 'continuation':
            continue
        if bool(I.truth(g[1])) != w:
            raise Violation('validity-' + lines[i][1], 'specfile/conditions.py: line %d (%s) is considered %s' % (i + 1, lines[i][0], 'valid' if not w else 'invalid'), None,
                            lambda env: '%r, conditions that hold: %s' % (conc_lines(ls, env), [k for k, v in t.t.items() if v]))


def line(kind, i):
    if kind == 'text':
        return (cat('l', fresh_str('x', LETTER, 1, 1)), 'text', None, None)
    if kind == 'if':
        return ('%%if c%d' % i, 'if', '%if', 'c%d' % i)
    if kind == 'elif':
        return ('%%elif c%d' % i, 'elif', '%elif', 'c%d' % i)
    return ('%' + kind, kind, '%' + kind, None)


def sequences(n):
    def f(I):
        t = Truth()
        setup(I, t)
        lines = [line(pick(['text', 'if', 'elif', 'else', 'endif'], 'line %d' % i), i) for i in range(n)]
        run(I, lines, t, mds=False)
    return f


def nested(n):
    """sequences that are well formed so far"""
    def f(I):
        t = Truth()
        setup(I, t)
        lines = [line('if', 0)]
        depth, seen = 1, [False]
        for i in range(1, n):
            last = lines[-1][1]
            ks = ['text'] if i == n - 1 else (['if', 'elif', 'else', 'endif'] if depth and not seen[-1] else ['if', 'endif'] if depth else ['if']) + (['text'] if last != 'text' else [])
            k = pick(ks, 'line %d' % i)
            if k == 'if':
                seen.append(False)
            elif k == 'endif':
                seen.pop()
            elif k == 'else':
                seen[-1] = True
            depth = len(seen)
            lines.append(line(k, i))
        run(I, lines, t, mds=False)
    return f


VARIANTS = [
    ('%if ', 'if', '%if', ['one', 'zero', 'two', 'minus', 'empty', 'text', 'undef', 'double', 'c']),
    ('  %if  ', 'if', '%if', ['one', 'c']),
    ('%ifarch ', 'if', '%ifarch', ['x86_64', 'i386', 'i386 x86_64', 'x86_64v2', 'linux']),
    ('%ifnarch ', 'if', '%ifnarch', ['x86_64', 'i386', 'i386 x86_64', 'x86_64v2']),
    ('%ifos ', 'if', '%ifos', ['linux', 'bsd', 'bsd linux', 'linux2', 'x86_64']),
    ('%ifnos ', 'if', '%ifnos', ['linux', 'bsd', 'bsd linux', 'linux2']),
]
ELSES = [('%elif ', 'elif', '%elif', ['one', 'zero', 'c']), ('%elifarch ', 'elif', '%elifarch', ['x86_64', 'i386']), ('%elifos ', 'elif', '%elifos', ['linux', 'bsd']), ('%else', 'else', '%else', [None]), ('  %else ', 'else', '%else', [None]), ('%else # c', 'else', '%else', [None])]
NOT = ['%iffy x', '%ifarchx y', '#%if c', 'x %if c', '%endiff', '%elsewhere', '%if_with x']
ENDS = ['%endif', '  %endif', '%endif ', '%endif # c']


def variants(I):
    t = Truth()
    setup(I, t)
    txt, kind, kwd, exprs = pick(VARIANTS, 'opening')
    e = pick(exprs, 'expression')
    lines = [line('text', 0), (txt + e, kind, kwd, e), line('text', 1)]
    if cur().pick(2, 'second branch'):
        txt, kind, kwd, exprs = pick(ELSES, 'second')
        e = pick(exprs, 'expression')
        lines += [(txt + (e or ''), kind, kwd, e), line('text', 2)]
    else:
        lines += [(pick(NOT, 'no condition'), 'text', None, None), line('text', 2)]
    lines += [(pick(ENDS, 'end'), 'endif', '%endif', None), line('text', 3)]
    run(I, lines, t)


def continued(I):
    """expressions over several lines"""
    t = Truth()
    setup(I, t)
    n = cur().pick(3, 'continuation lines')
    kw = pick(['%if', '%elif'], 'keyword')
    lines = [line('if', 0), line('text', 0)] if kw == '%elif' else []
    e = 'c1'
    lines.append((kw + ' c1' + (' \\' if n else ''), kw[1:], kw, e))
    for i in range(n):
        e += '  + d%d' % i if i == 0 else '+ d%d' % i
        lines.append((' + d%d' % i if i == 0 else '+ d%d' % i, 'text', None, 'continuation'))
        if i < n - 1:
            x = lines.pop()
            lines.append((x[0] + ' \\', x[1], x[2], x[3]))
            e += ' '
    k = [i for i, x in enumerate(lines) if x[2] == kw][-1]
    lines[k] = (lines[k][0], lines[k][1], lines[k][2], e.strip())
    cond = Truth()

    class Any:
        t = cond.t

        @staticmethod
        def of(x):
            return cond.of('c0' if x == 'c0' else 'joined')
    setup(I, Any)
    lines += [line('text', 5), line('else', 6), line('text', 7), line('endif', 8), line('text', 9)]
    run(I, lines, Any, mds=False)
    # the continuation is part of the expression
    exprs = [x[1] for x in I.world.events if x[0] == 'expandMacro' and isinstance(x[1], str) and x[1].startswith('%{expr:')]
    if n and any(x.startswith('%{expr:c1') and 'd%d' % (n - 1) not in x for x in exprs):
        raise Violation('continuation', 'specfile/conditions.py: a continued expression is not evaluated as a whole', None, lambda env: repr(exprs))


def definitions(I):
    """conditions inside macro definitions do not count"""
    t = Truth()
    setup(I, t)
    k = pick(['%if c9', '%else', '%endif'], 'inside')
    md = pick([['%define m() \\', k + ' \\', ' x'], ['%global m %{expand:', k, '}'], ['%define m() \\', ' x \\', k], ['%global m %{expand:', 'y', k + '}']], 'style')
    if cur().pick(2, 'preceded by another definition'):
        md = pick([['%define p() \\', ' a \\', ' b'], ['# c', '%global p %{expand:', 'z', '', '}']], 'the other definition') + md
    pre = pick([[], [line('if', 0)], [line('if', 0), line('text', 0), line('else', 1)]], 'before')
    lines = list(pre) + [(x, 'text', None, None) for x in md] + ([line('text', 3)] if cur().pick(2, 'directly followed by a condition') == 0 or not pre else []) + ([line('endif', 4), line('text', 5)] if pre else [])
    run(I, lines, t)


def generated(I):
    """condition lines produced by macros"""
    t = Truth()
    mp = {'%open': '%if c', '%mid': '%else', '%close': '%endif', '%none': ''}
    setup(I, t, mp)
    lines = [('%open', 'if', '%if', 'c'), line('text', 0), pick([('%mid', 'else', '%else', None), ('%none', 'text', None, None)], 'middle'), line('text', 1), pick([('%close', 'endif', '%endif', None), ('%none', 'text', None, None)], 'end'), line('text', 2)]
    run(I, lines, t)


def in_views(I):
    """the validity shown by tags and macro definitions"""
    t = Truth()
    setup(I, t)
    shape = pick([['if', 'T', 'elif', 'T', 'else', 'T', 'endif', 'T'], ['if', 'if', 'T', 'else', 'T', 'endif', 'T', 'else', 'T', 'endif', 'T'], ['else', 'T', 'if', 'T', 'endif', 'T']], 'shape')
    view = pick(['tags', 'macro definitions', 'sourcelist'], 'view')
    lines = []
    for i, k in enumerate(shape):
        if k == 'T':
            lines.append((('URL: u%d' if view == 'tags' else '%%global m%d b' if view != 'sourcelist' else 'src%d') % i, 'text', None, None))
        else:
            lines.append(line(k, i))
    ls = [x[0] for x in lines]
    if view == 'macro definitions':
        v = I.call(get(I, 'macro_definitions.MacroDefinitions.parse'), [VList(list(ls))], {'with_conditions': True})
    else:
        sec = I.call(get(I, 'sections.Section'), ['package' if view == 'tags' else view], {'data': VList(list(ls))})
        v = I.call(get(I, 'tags.Tags.parse' if view == 'tags' else 'sourcelist.Sourcelist.parse'), [sec])
    want = [w for w, x in zip(oracle(lines, t), lines) if x[1] == 'text']
    its = items(I, v)
    if view == 'sourcelist':
        its = [x for x in its if I.getattr(x, 'location').startswith('src')]
    got = [bool(I.truth(I.getattr(x, 'valid'))) for x in its]
    if got != want:
        raise Violation('validity-view', 'specfile: validity of %s in conditional blocks' % view, None, lambda env: '%r instead of %r in %r, conditions that hold: %s' % (got, want, ls, [k for k, v in t.t.items() if v]))


def OBLIGATIONS(tier):
    n = 4 if tier == 'quick' else 5
    m = 7 if tier == 'quick' else 9
    return [Obligation('sequences of %d lines' % k, sequences(k), split=5, quick=(4000, 60)) for k in range(1, n + 1)] + \
        [Obligation('well-formed sequences of %d lines' % k, nested(k), split=(5,), quick=(20000, 60)) for k in range(5, m + 1)] + \
        [Obligation('keyword variants', variants, split=len(VARIANTS), quick=(6000, 60)), Obligation('continued expressions', continued), Obligation('inside macro definitions', definitions),
         Obligation('generated by macros', generated), Obligation('views', in_views)]
