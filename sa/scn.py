"""Building blocks of analysis obligations: abstract line vocabularies and
comparison of abstract texts."""
from . import dom
from .dom import *
from .dom import cur, fresh_str, cat
from .drive import Violation
from .interp import *
from .check import get, Obligation, Finding, AnchorError

BR = cmask('{}()[]')
PCT = cmask('%')
WORD = mask_of(lambda c: c.isalnum() or c == '_') & ((1 << 128) - 1)
LETTER = cmask('abcdefghijklmnopqrstuvwxyz')
NONWS = NOT_NL & ~WS
PLAIN = NONWS & ~PCT & ~BR & ~cmask('#\\"\'`$:-')      # no meaning to RPM
TEXT = NOT_NL & ~PCT & ~BR & ~cmask('\\"\'`$')
BLANK = cmask(' \t')


def v_text(n='t', lo=0, hi=None):
    return fresh_str(n, TEXT, lo, hi)


def v_any(n='a', lo=0, hi=None, minus=0):
    return fresh_str(n, NOT_NL & ~minus, lo, hi)


def v_word(n='w', lo=1, hi=None):
    return fresh_str(n, WORD, lo, hi)


def v_ws(n='s', lo=0, hi=None):
    return fresh_str(n, BLANK, lo, hi)


def v_plain(n='p', lo=1, hi=None):
    """text that starts and ends with a visible character"""
    return cat(fresh_str(n, PLAIN, 1, 1), fresh_str(n + 'r', TEXT, 0, hi), fresh_str(n + 'e', PLAIN, 1, 1))


def pick(opts, label=''):
    return opts[cur().pick(len(opts), label)]


def gen_lines(alphabet, n, label='line'):
    out = []
    for i in range(n):
        x = pick(alphabet, '%s %d' % (label, i))
        out.append(x() if callable(x) else x)
    return out


def conc_lines(ls, env):
    return [dom.conc(x, env) for x in ls]


def same_lines(got, want, key, msg):
    for x in got:
        if not is_str(x):
            if isinstance(x, (Noop, Opq)):
                raise Imprecise('unmodelled line %r' % (x,))
            raise Violation(key, msg + ' (not a string: %r)' % (x,), None, lambda env: repr(conc_lines(want, env)))
    if len(got) == len(want) and all(dom.tri_eq(a, b) is True for a, b in zip(got, want)):
        return

    def differs(env):
        return conc_lines(got, env) != conc_lines(want, env)
    raise Violation(key, msg, differs, lambda env: '%r became %r' % (conc_lines(want, env), conc_lines(got, env)))


def same_text(got, want, key, msg):
    if got is None or not is_str(got):
        if isinstance(got, (Noop, Opq)):
            raise Imprecise('unmodelled text')
        raise Violation(key, msg + ' (got %r)' % (got,), None, lambda env: repr(dom.conc(want, env)))
    if dom.tri_eq(got, want) is True:
        return
    raise Violation(key, msg, lambda env: dom.conc(got, env) != dom.conc(want, env),
                    lambda env: '%r became %r' % (dom.conc(want, env), dom.conc(got, env)))


def show_lines(ls):
    return lambda env: repr(conc_lines(ls, env))


def exc_name(e):
    return e.exc.cls.name


def no_raise(I, key, what, fn, show=None, allowed=()):
    """fn() must not raise (unless one of the allowed exception classes)"""
    try:
        return fn()
    except AbsRaise as e:
        for a in allowed:
            if any(c.name == a for c in e.exc.cls.mro):
                raise Infeasible('allowed refusal')
        raise Violation(key, '%s raises %s %s' % (what, exc_name(e), e.exc.attrs.get('args')), None, show)


def items(I, v):
    if isinstance(v, VList):
        return v.items
    return list(I.iterate(v))


def to_str(I, v):
    return I.call(I.builtins['str'], [v])


def identity_expand(I):
    """macro expansion returns its argument (nothing is defined)"""
    I.world.expand = lambda I, s: s


# ------------------------------------------------------------ whole spec files
SPEC = '/w/s.spec'


def put_file(I, path, text):
    I.world.fs.append([path, 'file', ABytes(text, 'utf8', 'surrogateescape')])


def file_text(I, path):
    e = I.world.lookup(path)
    if e is None or e[1] != 'file':
        return None
    b = e[2]
    if isinstance(b, bytes):
        return b.decode('utf8', 'surrogateescape')
    return b.s


def join_lines(lines, trailing=True):
    out = []
    for i, l in enumerate(lines):
        if i:
            out.append('\n')
        out.append(l)
    if trailing and lines:
        out.append('\n')
    return cat(*out) if out else ''


def new_spec(I, lines, trailing=True, path=SPEC, **kw):
    """Specfile over a file with the given abstract lines"""
    text = lines if is_str(lines) else join_lines(lines, trailing)
    put_file(I, path, text)
    return I.call(get(I, 'specfile.Specfile'), [path], kw)


def setattr_(I, o, name, v):
    I.setattr(o, name, v)


def writes_to(I, path, since=0):
    return [e for e in I.world.events[since:] if e[0] == 'write' and is_str(e[1]) and dom.tri_eq(e[1], path) is True]


def with_view(I, cm, body, exc=None):
    """with cm as v: body(v) — then leave, raising exc inside if given.
    Returns the escaping exception or None."""
    v = I.call(I.getattr(cm, '__enter__'), [])
    try:
        body(v)
        if exc is not None:
            I.raise_(exc, 'raised in the with block')
    except AbsRaise as e:
        r = I.call(I.getattr(cm, '__exit__'), [e.exc.cls, e.exc, None])
        if I.truth(r):
            return None
        return e
    I.call(I.getattr(cm, '__exit__'), [None, None, None])
    return None
