"""C02: values and option strings re-render exactly."""
from ..scn import *

EXPLANATION = (
    'Abstract interpretation of the value parser and of the option tokenizer over strings made of symbolic characters and RPM syntax '
    'fragments: concatenating the rendered nodes/tokens must provably give back the input on every path. Refusals are allowed only as '
    'a specfile exception.')
RULE = "''.join(str(n) for n in parse(s)) == s; str(Options(tokenize(s))) == s"
ASSUMPTIONS = ['bound: number of free characters / fragments per obligation']


def c1(n='c', minus=0):
    return fresh_str(n, FULL & ~minus, 1, 1)


def w1(n='w'):
    return fresh_str(n, LETTER, 1, 1)


INNER = cmask('%{}()[]:?! \\"\'ax1-#*')

FRAGS = [
    lambda: '',
    lambda: c1('t', PCT),
    lambda: cat('%', c1('m', cmask('([{'))),
    lambda: cat('%', c1('m', cmask('([{')), w1()),
    lambda: cat('%{', c1('b', BR), '}'),
    lambda: cat('%{', c1('b', BR), c1('b2', BR), '}'),
    lambda: cat('%{', w1(), fresh_str('sp', WS, 1, 1), c1('b2', BR), '}'),
    lambda: cat('%{?', w1(), ':', c1('b', BR), '}'),
    lambda: cat('%{!?', w1(), ':%{', w1('z'), '}', c1('b', BR), '}'),
    lambda: cat('%{', w1(), ':', c1('b', BR), c1('b2', BR), '}'),
    lambda: cat('%(', c1('b', cmask('()')), ')'),
    lambda: cat('%[', c1('b', cmask('[]')), ']'),
    lambda: cat('%{?', w1(), ':', '%{?', w1('z'), ':', c1('b', BR), '}}'),
    lambda: cat('%', '%', c1('e')),
    lambda: cat('%', w1(), fresh_str('star', cmask('*#'), 0, 2)),
    lambda: cat('%-', w1(), fresh_str('star', cmask('*#'), 0, 2)),
    lambda: cat('%{-', w1(), fresh_str('star', cmask('*:'), 0, 1), '}'),
    lambda: cat('%{', w1(), '-', w1('z'), ' ', fresh_str('sp', WS, 0, 2), c1('b2', BR), '}'),
    lambda: cat('%{lua:', c1('b', BR), '{', c1('b2', BR), '}}'),
]


def render(I, nodes):
    out = ''
    for n in items(I, nodes):
        out = cat(out, to_str(I, n))
    return out


def values(n, frags=FRAGS):
    def f(I):
        identity_expand(I)
        s = cat(*gen_lines(frags, n, 'fragment'))
        nodes = no_raise(I, 'value-parse-raises', 'specfile/value_parser.py: ValueParser.parse()', lambda: I.call(get(I, 'value_parser.ValueParser.parse'), [s]),
                         lambda env: repr(dom.conc(s, env)), allowed=('UnterminatedMacroException',))
        out = render(I, nodes)
        same_text(out, s, 'value-render', 'specfile/value_parser.py: rendering the nodes of a parsed value does not give the value back')
    return f


def free_value(n):
    def f(I):
        identity_expand(I)
        s = cat(*[fresh_str('c%d' % i, FULL, 1, 1) for i in range(n)])
        nodes = no_raise(I, 'value-parse-raises', 'specfile/value_parser.py: ValueParser.parse()', lambda: I.call(get(I, 'value_parser.ValueParser.parse'), [s]),
                         lambda env: repr(dom.conc(s, env)), allowed=('UnterminatedMacroException',))
        same_text(render(I, nodes), s, 'value-render', 'specfile/value_parser.py: rendering the nodes of a parsed value does not give the value back')
    return f


OPT_FRAGS = [
    lambda: '',
    lambda: c1('t', PCT),
    lambda: fresh_str('sp', WS, 1, 2),
    lambda: cat('-', w1()),
    lambda: cat('-', w1(), fresh_str('sp', BLANK, 0, 2), c1('b', PCT)),
    lambda: cat('"', fresh_str('q', FULL & ~PCT, 0, 2), '"'),
    lambda: cat("'", fresh_str('q', FULL & ~PCT, 0, 2), "'"),
    lambda: cat('\\', c1('e', PCT)),
    lambda: cat('%{', w1(), '}'),
    lambda: cat('"%{', w1(), ' ', c1('b', BR | PCT), '}"'),
    lambda: cat('%{?', w1(), ':', c1('b', BR | PCT), '}'),
]


def options(n, frags=OPT_FRAGS, free=0):
    def f(I):
        identity_expand(I)
        if free:
            s = cat(*[fresh_str('c%d' % i, FULL & ~PCT, 1, 1) for i in range(free)])
        else:
            s = cat(*gen_lines(frags, n, 'fragment'))
        toks = no_raise(I, 'options-tokenize-raises', 'specfile/options.py: Options.tokenize()', lambda: I.call(get(I, 'options.Options.tokenize'), [s]),
                        lambda env: repr(dom.conc(s, env)), allowed=('SpecfileException',))
        o = I.call(get(I, 'options.Options'), [toks, 'n:qp:'])
        same_text(to_str(I, o), s, 'options-render', 'specfile/options.py: rendering tokenized options does not give the string back')
    return f


def OBLIGATIONS(tier):
    q = tier == 'quick'
    obs = [Obligation('value of %d free characters' % n, free_value(n), quick=(6000, 60), thorough=(200000, 600)) for n in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6))]
    obs += [Obligation('value of %d fragments' % n, values(n), split=len(FRAGS) if n > 1 else 0, quick=(8000, 60), thorough=(100000, 300)) for n in ((1, 2) if q else (1, 2, 3))]
    obs += [Obligation('options of %d free characters' % n, options(0, free=n), quick=(6000, 60), thorough=(200000, 600)) for n in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5, 6))]
    obs += [Obligation('options of %d fragments' % n, options(n), split=len(OPT_FRAGS) if n > 1 else 0, quick=(8000, 60), thorough=(100000, 300)) for n in ((1, 2, 3) if q else (1, 2, 3, 4))]
    return obs
