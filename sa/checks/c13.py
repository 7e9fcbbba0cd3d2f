"""C13: versions compare like RPM compares them, consistently."""
import ast
from ..scn import *

EXPLANATION = (
    'Abstract interpretation of the six comparison operators, hashing, parsing and rendering of EVR, NEVR and NEVRA over a table of epochs, versions, '
    'releases, names and architectures that covers every outcome of RPM\'s label comparison (an independent reference implementation of which '
    'answers rpm.labelCompare), and over strings with free text.')
RULE = ('a OP b == (reference comparison OP 0) for the same name and architecture; ordering of different names, architectures or types raises TypeError; '
        '== and != are complements; equal => equal hash; from_string(str(x)) has the fields of x; malformed strings raise SpecfileException')
ASSUMPTIONS = ['hashes of different tuples differ', 'rpm.labelCompare behaves as rpmvercmp']


def seg(a, b):
    """reference implementation of rpmvercmp()"""
    if a == b:
        return 0
    alnum = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789')
    dig = set('0123456789')
    while a or b:
        while a and a[0] not in alnum and a[0] not in '~^':
            a = a[1:]
        while b and b[0] not in alnum and b[0] not in '~^':
            b = b[1:]
        if a[:1] == '~' or b[:1] == '~':
            if a[:1] != '~':
                return 1
            if b[:1] != '~':
                return -1
            a, b = a[1:], b[1:]
            continue
        if a[:1] == '^' or b[:1] == '^':
            if not a:
                return -1
            if not b:
                return 1
            if a[0] != '^':
                return 1
            if b[0] != '^':
                return -1
            a, b = a[1:], b[1:]
            continue
        if not (a and b):
            break
        num = a[0] in dig
        cls = dig if num else alnum - dig
        i = j = 0
        while i < len(a) and a[i] in cls:
            i += 1
        while j < len(b) and b[j] in cls:
            j += 1
        x, y = a[:i], b[:j]
        if not x:
            return -1
        if not y:
            return 1 if num else -1
        if num:
            x, y = x.lstrip('0'), y.lstrip('0')
            if len(x) != len(y):
                return 1 if len(x) > len(y) else -1
        if x != y:
            return 1 if x > y else -1
        a, b = a[i:], b[j:]
    if not a and not b:
        return 0
    return 1 if a else -1


def label(x, y):
    return seg(*((str(int(v or 0))) .zfill(9) for v in (x[0], y[0]))) or seg(x[1], y[1]) or seg(x[2] or '', y[2] or '')


def hook(I, a, b):
    for t in (a, b):
        if not isinstance(t, tuple) or len(t) != 3 or not all(isinstance(q, str) for q in t[:2]) or not (t[2] is None or isinstance(t[2], str)):
            if isinstance(t, tuple) and len(t) == 3 and any(isinstance(q, (AStr, OInt, Opq)) for q in t):
                raise Imprecise('labelCompare of free text')
            I.raise_('ValueError', 'invalid version')
        if not t[1]:
            I.raise_('ValueError', 'invalid version')
    return label(a, b)


EVRS = [(0, '1', '1'), (0, '1', ''), (0, '1.0', '1'), (0, '1_0', '1'), (0, '01', '1'), (0, '1', '01'), (1, '1', '1'), (0, '2', '1'), (0, '10', '1'), (0, '1', '2'), (0, '1~rc1', '1'), (0, '1^a', '1'),
        (0, '1a', '1'), (0, '1.a', '1'), (0, '0', '1'), (0, '', '1'), (0, '1.', '1'), (10, '1', '1'), (2, '0', '0'), (0, 'a', '1'), (0, 'A', '1'), (0, '000', '1'), (0, '1', '1.fc9'), (0, '1', '1.fc10'), (0, '1~', '1'), (0, '1~~', '1'), (0, '1^', '1'), (0, '1..0', '1')]
OPS = {'<': ast.Lt(), '<=': ast.LtE(), '==': ast.Eq(), '!=': ast.NotEq(), '>=': ast.GtE(), '>': ast.Gt()}
PY = {'<': lambda c: c < 0, '<=': lambda c: c <= 0, '==': lambda c: c == 0, '!=': lambda c: c != 0, '>=': lambda c: c >= 0, '>': lambda c: c > 0}


def make(I, cls, e, name='n', arch='x86_64'):
    kw = {'epoch': e[0], 'version': e[1], 'release': e[2]}
    if cls != 'EVR':
        kw['name'] = name
    if cls == 'NEVRA':
        kw['arch'] = arch
    return I.call(get(I, 'utils.' + cls), [], kw)


def shown(*x):
    return lambda env: repr(x)


def operators(cls):
    def f(I):
        e = pick(EVRS, 'left')
        for g in EVRS:
            for names in (('n', 'n'), ('n', 'm')) if cls != 'EVR' else (('n', 'n'),):
                for arches in (('x86_64', 'x86_64'), ('x86_64', 'noarch')) if cls == 'NEVRA' else (('noarch', 'noarch'),):
                    a, b = make(I, cls, e, names[0], arches[0]), make(I, cls, g, names[1], arches[1])
                    same = names[0] == names[1] and arches[0] == arches[1]
                    c = label((e[0], e[1] or '0', e[2]), (g[0], g[1] or '0', g[2]))
                    res = {}
                    for o, op in OPS.items():
                        what = 'specfile/utils.py: %s %s %s' % (cls, o, cls)
                        try:
                            r = I.compare(op, a, b)
                            if not isinstance(r, bool):
                                r = I.truth(r)
                        except AbsRaise as x:
                            if same or o in ('==', '!=') or exc_name(x) != 'TypeError':
                                raise Violation('operator', '%s raises %s' % (what, exc_name(x)), None, shown(e, g, names, arches))
                            continue
                        res[o] = r
                        if same:
                            want = PY[o](c)
                        elif o in ('==', '!='):
                            want = o == '!='
                        else:
                            raise Violation('unrelated', '%s does not refuse to order objects with different names or architectures' % what, None, shown(e, g, names, arches))
                        if r is not want:
                            raise Violation('operator', '%s is %r instead of %r' % (what, r, want), None, shown(e, g, names, arches))
                    if res.get('=='):
                        h1, h2 = (I.call(I.builtins['hash'], [x]) for x in (a, b))
                        if getattr(h1, 'key', h1) != getattr(h2, 'key', h2):
                            raise Violation('hash', 'specfile/utils.py: equal %s objects have different hashes' % cls, None, shown(e, g))
    return f


def foreign(I):
    cls = pick(['EVR', 'NEVR', 'NEVRA'], 'class')
    a = make(I, cls, EVRS[0])
    other = pick(['EVR', 'NEVR', 'NEVRA', 'str', 'tuple', 'None'], 'other')
    if other == cls:
        raise Infeasible('same class')
    b = {'str': lambda: '1-1', 'tuple': lambda: ('0', '1', '1'), 'None': lambda: None}.get(other, lambda: make(I, other, EVRS[0]))()
    for x, y in ((a, b), (b, a)):
        for o, op in OPS.items():
            what = 'specfile/utils.py: comparing %s and %s with %s' % (cls, other, o)
            try:
                r = I.truth(I.compare(op, x, y))
            except AbsRaise as e:
                if o in ('==', '!=') or exc_name(e) != 'TypeError':
                    raise Violation('foreign', '%s raises %s' % (what, exc_name(e)), None, None)
                continue
            if o in ('==', '!='):
                if r is not (o == '!='):
                    raise Violation('foreign', '%s is %r' % (what, r), None, None)
            else:
                raise Violation('foreign', '%s is not refused' % what, None, None)


VER = LETTER | cmask('0123456789.~^_+')


def fields(I, o, cls):
    out = [I.getattr(o, 'epoch'), I.getattr(o, 'version'), I.getattr(o, 'release')]
    if cls != 'EVR':
        out.append(I.getattr(o, 'name'))
    if cls == 'NEVRA':
        out.append(I.getattr(o, 'arch'))
    return out


def strings(cls):
    def f(I):
        bare = cls != 'EVR' and cur().pick(2, 'without release')
        v = pick(['1', cat('1', fresh_str('v', VER, 0, 2)), cat(fresh_str('v', LETTER, 1, 1), '.2')], 'version')
        r = pick((['', '1'] if cls == 'EVR' or bare else ['1']) + [cat('1', fresh_str('r', VER, 0, 2)), '2.fc35'], 'release')
        e = pick([0, 1, 12], 'epoch')
        name = pick(['n', 'a-b', cat('a', fresh_str('n', LETTER | cmask('-_.'), 0, 1), 'b'), 'x-1-y', 'python3.12'] if not bare else ['n', 'a_b'], 'name') if cls != 'EVR' else 'n'
        arch = pick(['x86_64', 'noarch', 'i686', 'aarch64'], 'arch') if cls == 'NEVRA' else 'x86_64'
        o = make(I, cls, (e, v, r), name, arch)
        want = fields(I, o, cls)
        text = to_str(I, o)
        exp = cat(*([name, '-'] if cls != 'EVR' else []), *(['%d:' % e] if e else []), v, *(['-', r] if not (isinstance(r, str) and r == '') else []), *(['.', arch] if cls == 'NEVRA' else []))
        same_text(text, exp, 'string', 'specfile/utils.py: str() of %s' % cls)
        back = no_raise(I, 'from-string', 'specfile/utils.py: %s.from_string() of the string of an object' % cls, lambda: I.call(I.getattr(get(I, 'utils.' + cls), 'from_string'), [text]), lambda env: repr(dom.conc(text, env)))
        for x, y in zip(fields(I, back, cls), want):
            if is_str(y):
                same_text(x, y, 'from-string', 'specfile/utils.py: a field of %s after from_string(str())' % cls)
            elif x != y or type(x) is not type(y):
                raise Violation('from-string', 'specfile/utils.py: a field of %s is %r instead of %r after from_string(str())' % (cls, x, y), None, lambda env: repr(dom.conc(text, env)))
    return f


MALFORMED = {'EVR': ['', '-', '1-', '-1', 'a-b-c', '1-2-3-4'], 'NEVR': ['', 'foo', 'foo-', '-'], 'NEVRA': ['', 'foo', 'foo-1-1', 'foo-1-1.bogus', 'foo-1-1.', 'foo-1-1noarch', 'foo-1-1.noarch.x']}


def malformed(I):
    cls = pick(sorted(MALFORMED), 'class')
    s = pick(MALFORMED[cls], 'string')
    try:
        I.call(I.getattr(get(I, 'utils.' + cls), 'from_string'), [s])
    except AbsRaise as e:
        if not any(c.name == 'SpecfileException' for c in e.exc.cls.mro):
            raise Violation('malformed', 'specfile/utils.py: %s.from_string(%r) raises %s' % (cls, s, exc_name(e)), None, None)
        return
    raise Violation('malformed', 'specfile/utils.py: %s.from_string(%r) is not refused' % (cls, s), None, None)


def arch(I):
    a = pick(['bogus', '', 'x86_64x', 'xx86_64', 'noarch.'], 'arch')
    try:
        make(I, 'NEVRA', EVRS[0], 'n', a)
    except AbsRaise as e:
        if not any(c.name == 'SpecfileException' for c in e.exc.cls.mro):
            raise Violation('malformed', 'specfile/utils.py: NEVRA with the architecture %r raises %s' % (a, exc_name(e)), None, None)
        return
    raise Violation('malformed', 'specfile/utils.py: NEVRA with the architecture %r is not refused' % a, None, None)


def OBLIGATIONS(tier):
    hk = {'labelCompare': hook}
    return [Obligation('operators of ' + c, operators(c), split=len(EVRS), hooks=hk, max_steps=2000000, quick=(400, 60)) for c in ('EVR', 'NEVR', 'NEVRA')] + \
        [Obligation('strings of ' + c, strings(c), split=3, hooks=hk, quick=(6000, 60)) for c in ('EVR', 'NEVR', 'NEVRA')] + \
        [Obligation('other types', foreign, hooks=hk), Obligation('malformed strings', malformed, hooks=hk), Obligation('architecture', arch, hooks=hk)]
