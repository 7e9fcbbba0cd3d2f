"""Models of builtins and of the standard library modules the repository uses."""
import ast
import collections
import os
import re
import sys
import string as pystring

from .dom import *
from . import dom, rx
from .interp import *
from .interp import _MISSING, parse_file
from . import interp as _interp

object_methods = {}
HERE = os.path.dirname(os.path.abspath(__file__))


def bi(name):
    def deco(fn):
        return VBuiltin(name, fn)
    return deco


# ------------------------------------------------------------------- text

def str_(I, v):
    if is_str(v):
        return v
    if v is None or isinstance(v, (bool, int, float)):
        return str(v)
    if isinstance(v, VObj):
        if v.cls.is_intenum:
            return str(v.attrs['_value_'])
        if v.cls.is_enum:
            return v.cls.name + '.' + v.attrs['_name_']
        f = v.cls.lookup('__str__')
        if f is not None:
            return I.call(I.bind_attr(f, v, v.cls), [])
        if v.cls.issub(I.builtins['BaseException']):
            a = v.attrs.get('args', ())
            if v.cls.issub(I.builtins['KeyError']) and len(a) == 1:
                return repr_(I, a[0])
            return '' if not a else str_(I, a[0]) if len(a) == 1 else repr_(I, tuple(a))
        return repr_(I, v)
    if isinstance(v, OInt):
        if v.lo is not None and v.lo == v.hi:
            return str(v.lo)
        c = cur()
        k = ('str', id(v))
        if k not in c.memo:
            m = cmask('0123456789')
            if v.lo is None or v.lo < 0:
                m |= cmask('-')
            d = c.fresh('str(%s)' % v.name, m, 1, None)
            c.memo[k] = (d, v)
            lo, hi = v.lo, v.hi

            def chk(env, d=d, v=v):
                if d.bind is None and d not in env:
                    a = v.lo if v.lo is not None else 0
                    env[d] = str(a + env['rnd'].randint(0, 3) if v.hi is None else v.hi)
                t = conc((d,), env)
                try:
                    x = int(t)
                except ValueError:
                    return False
                return str(x) == t and (v.lo is None or x >= v.lo) and (v.hi is None or x <= v.hi)
            c.fact('str(int)', chk)
        return mk((c.memo[k][0],))
    if isinstance(v, Lin):
        vv = v
        return derived('str(len)', repr(lsimp(v)), None, cmask('0123456789-'), 1)
    if isinstance(v, (VClass, VFunc)):
        return repr(v)
    if isinstance(v, Opq):
        c = cur()
        k = ('ostr', id(v))
        if k not in c.memo:
            c.memo[k] = (c.fresh('str(%s)' % v.name), v)
        return mk((c.memo[k][0],))
    return repr_(I, v)


def repr_(I, v):
    if isinstance(v, (str, int, float, bytes, bool, type(None))):
        return repr(v)
    if isinstance(v, AStr):
        return derived('repr', v, repr)
    if isinstance(v, VObj):
        f = v.cls.lookup('__repr__')
        if f is not None:
            return I.call(I.bind_attr(f, v, v.cls), [])
        return '<%s object #%d>' % (v.cls.name, v.oid)
    if isinstance(v, VList):
        return cat('[', join_(', ', [repr_(I, x) for x in v.items]), ']')
    if isinstance(v, tuple):
        return cat('(', join_(', ', [repr_(I, x) for x in v]), ',)' if len(v) == 1 else ')')
    if isinstance(v, VDict):
        return cat('{', join_(', ', [cat(repr_(I, a), ': ', repr_(I, b)) for a, b in v.items]), '}')
    if isinstance(v, (OInt, Lin)):
        return str_(I, v)
    c = cur()
    k = ('repr', id(v))
    if k not in c.memo:
        c.memo[k] = (c.fresh('repr'), v)
    return mk((c.memo[k][0],))


def join_(sep, items):
    out = []
    for i, x in enumerate(items):
        if i:
            out.append(sep)
        out.append(x)
    return mk(out)


def format_(I, x, spec):
    if spec == '' and not isinstance(x, VObj):
        return str_(I, x)
    if isinstance(x, VObj):
        f = x.cls.lookup('__format__')
        if f is None and spec == '':
            return str_(I, x)
        if f is not None:
            return I.call(I.bind_attr(f, x, x.cls), [spec])
        raise Imprecise('format')
    if isinstance(spec, str) and isinstance(x, (str, int, float)):
        try:
            return format(x, spec)
        except ValueError:
            I.raise_('ValueError', 'format')
    if isinstance(x, OInt) and isinstance(spec, str) and re.match(r'^0\d+d?$', spec):
        w = int(spec.rstrip('d'))
        c = cur()
        k = ('fmt', id(x), spec)
        if k not in c.memo:
            s = str_(I, x)
            d = c.fresh('fmt(%s,%s)' % (x.name, spec), cmask('0123456789-'), max(w, 1), None)

            def chk(env, d=d, s=s):
                val = conc(s, env).zfill(w)
                if d.bind is None and d not in env:
                    env[d] = val
                return conc((d,), env) == val
            c.fact('format', chk)
            c.memo[k] = (d, x)
        return mk((c.memo[k][0],))
    if is_str(x) and isinstance(spec, str) and spec in ('s',):
        return x
    if is_str(x) and isinstance(spec, str):
        return derived('format' + spec, x, lambda t: format(t, spec))
    if isinstance(x, Opq):
        c = cur()
        k = ('ofmt', id(x), spec if isinstance(spec, str) else key_of(spec))
        if k not in c.memo:
            c.memo[k] = (c.fresh('format(%s)' % x.name, NOT_NL, 1), x)
        return mk((c.memo[k][0],))
    raise Imprecise('format %r %r' % (x, spec))


def percent_format(I, a, b):
    if not isinstance(a, str):
        raise Imprecise('%')
    args = list(b) if isinstance(b, tuple) else [b]
    out = []
    for tok in re.split(r'(%[srd%])', a):
        if tok == '%%':
            out.append('%')
        elif tok in ('%s', '%d'):
            if not args:
                I.raise_('TypeError', 'not enough arguments')
            out.append(str_(I, args.pop(0)))
        elif tok == '%r':
            out.append(repr_(I, args.pop(0)))
        elif '%' in tok:
            raise Imprecise('% format')
        else:
            out.append(tok)
    return mk(out)


def split_ws(I, s, maxsplit=-1):
    if isinstance(s, str):
        return s.split(None, maxsplit)
    out = []
    n = norm(s)
    k = 0
    c0 = len(cur().arity)
    while True:
        _, n = strip_left(n, WS)
        if not norm(n):
            return out
        if maxsplit >= 0 and k >= maxsplit:
            l, _ = strip_right(n, WS)
            out.append(mk(l))
            return out
        word, n = take_until(n, WS)
        out.append(mk(word))
        k += 1
        if k > 4 and (len(cur().arity) - c0 > 4 or k > 200):
            raise Bounded('split')


def take_until(n, mask):
    """longest prefix without characters of mask"""
    return strip_left(n, FULL & ~mask)


def split_on(I, s, sep, maxsplit=-1):
    if isinstance(s, str) and isinstance(sep, str):
        return s.split(sep, maxsplit)
    if not isinstance(sep, str):
        raise Imprecise('split on abstract separator')
    out = []
    n = norm(s)
    k = 0
    c0 = len(cur().arity)
    while True:
        if maxsplit >= 0 and k >= maxsplit:
            break
        r = find_split(n, sep)
        if r is None:
            break
        out.append(mk(r[0]))
        n = r[1]
        k += 1
        if k > 6 and (len(cur().arity) - c0 > 6 or k > 200):
            raise Bounded('split')
    out.append(mk(n))
    return out


def rsplit_on(I, s, sep, maxsplit=-1):
    if isinstance(s, str) and isinstance(sep, str):
        return s.rsplit(sep, maxsplit)
    out = []
    n = norm(s)
    k = 0
    c0 = len(cur().arity)
    while True:
        if maxsplit >= 0 and k >= maxsplit:
            break
        r = find_split(n, sep, from_right=True)
        if r is None:
            break
        out.insert(0, mk(r[1]))
        n = r[0]
        k += 1
        if k > 4 and (len(cur().arity) - c0 > 4 or k > 200):
            raise Bounded('split')
    out.insert(0, mk(n))
    return out


def splitlines(I, s, keepends=False):
    if isinstance(s, str):
        return s.splitlines(keepends)
    out = []
    n = norm(s)
    k = 0
    c0 = len(cur().arity)
    while True:
        n = norm(n)
        if not n:
            break
        line, rest = take_until(n, LINEBREAKS)
        rest = norm(rest)
        if not rest:
            # all consumed
            if norm(line):
                if truth_parts(line):
                    out.append(mk(line))
            break
        h = head(rest)
        ch, rest2 = h
        br = [ch]
        cr = cmask('\r')
        if char_in(ch, cr):
            h2 = norm(rest2)
            if h2 and startswith(mk(h2), '\n'):
                _, rest2 = cut(h2, 1)
                br = [ch, '\n']
        out.append(mk(list(line) + br) if keepends else mk(line))
        n = rest2
        k += 1
        if k > 6 and (len(cur().arity) - c0 > 6 or k > 200):
            raise Bounded('splitlines')
    return out


def truth_parts(p):
    return dom.truth(mk(p))


def replace(I, s, old, new, count=-1):
    if isinstance(s, str) and isinstance(old, str) and isinstance(new, str):
        return s.replace(old, new, count)
    if not isinstance(old, str) or count != -1:
        return derived('replace', s, None) if not isinstance(old, str) else _replace_n(s, old, new, count)
    if len(old) == 1:
        m = cmask(old)
        return rx.map_class(s, m, lambda ch: new)
    return _replace_n(s, old, new, -1)


def _replace_n(s, old, new, count):
    out = []
    n = norm(s)
    k = 0
    c0 = len(cur().arity)
    while count < 0 or k < count:
        r = find_split(n, old)
        if r is None:
            break
        out.extend(r[0])
        out.append(new)
        n = r[1]
        k += 1
        if k > 3 and (len(cur().arity) - c0 > 3 or k > 200):
            raise Bounded('replace')
    out.extend(n)
    return mk(out)


def to_int(I, v, base=10):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, (int, Lin, OInt)):
        return v
    if isinstance(v, float):
        return int(v)
    if isinstance(v, VObj):
        if v.cls.is_intenum:
            return v.attrs['_value_']
        for n in ('__int__', '__index__'):
            fn = v.cls.lookup(n)
            if fn is not None:
                return I.call(I.bind_attr(fn, v, v.cls), [])
    if base != 10 and not isinstance(v, str):
        raise Imprecise('int with base')
    if isinstance(v, str):
        try:
            return int(v, base)
        except ValueError:
            I.raise_('ValueError', 'int')
    if isinstance(v, AStr):
        c = cur()
        k = ('int', key_of(v))
        if k in c.memo:
            r = c.memo[k]
            if r is None:
                I.raise_('ValueError', 'int')
            return r
        n = norm(v)
        alld = all(all(ch.isdecimal() for ch in p) if isinstance(p, str) else not p.mask & ~DECIMAL for p in n)
        lo, hi = lbounds(plen(v))
        if alld and lo > 0:
            ok = True
        else:
            if any(isinstance(p, str) and not re.match(r'^[\s+\-\d_]*$', p) for p in n):
                ok = False
            else:
                ok = c.choose(2, 'int(...) valid?') == 0

                def chk(env, ok=ok, sn=tuple(n)):
                    try:
                        int(conc(sn, env))
                        return ok
                    except ValueError:
                        return not ok
                c.fact('int', chk)
        if not ok:
            c.memo[k] = None
            I.raise_('ValueError', 'int')
        r = OInt('int(%r)' % (v,), 0 if alld else None)
        r.src = v
        c.memo[k] = r
        c.memo[('str', id(r))] = c.memo.get(('str', id(r)))
        if c.memo[('str', id(r))] is None:
            del c.memo[('str', id(r))]
        return r
    if v is None:
        I.raise_('TypeError', 'int')
    if isinstance(v, Opq):
        c = cur()
        k = ('oint', id(v))
        if k not in c.memo:
            c.memo[k] = OInt('int(%s)' % v.name)
        return c.memo[k]
    raise Imprecise('int(%r)' % (v,))


def str_method(I, s, name):
    def m(fn):
        return VBuiltin('str.' + name, fn)
    if name == 'startswith':
        def f(I, a, k):
            p = a[0]
            t = s if len(a) < 2 else slice_str(s, I.posval(a[1]), None)
            if isinstance(p, tuple):
                return any(startswith(t, x) for x in p)
            if not is_str(p):
                if isinstance(p, (Opq, Noop)):
                    raise Imprecise('startswith')
                I.raise_('TypeError', 'startswith')
            return startswith(t, p)
        return m(f)
    if name == 'endswith':
        def f(I, a, k):
            p = a[0]
            if isinstance(p, tuple):
                return any(endswith(s, x) for x in p)
            return endswith(s, p)
        return m(f)
    if name in ('strip', 'lstrip', 'rstrip'):
        def f(I, a, k):
            ch = a[0] if a else None
            if isinstance(s, str) and (ch is None or isinstance(ch, str)):
                return getattr(s, name)(ch)
            if ch is not None and not isinstance(ch, str):
                raise Imprecise('strip')
            return strip(s, WS, name != 'rstrip', name != 'lstrip', ch)
        return m(f)
    if name == 'split':
        def f(I, a, k):
            sep = a[0] if a else k.get('sep')
            mx = a[1] if len(a) > 1 else k.get('maxsplit', -1)
            return VList(split_ws(I, s, mx) if sep is None else split_on(I, s, sep, mx))
        return m(f)
    if name == 'rsplit':
        def f(I, a, k):
            sep = a[0] if a else k.get('sep')
            mx = a[1] if len(a) > 1 else k.get('maxsplit', -1)
            if sep is None:
                if isinstance(s, str):
                    return VList(s.rsplit(None, mx))
                raise Imprecise('rsplit')
            return VList(rsplit_on(I, s, sep, mx))
        return m(f)
    if name == 'partition' or name == 'rpartition':
        def f(I, a, k):
            r = find_split(s, a[0], name == 'rpartition')
            if r is None:
                return (s, '', '') if name == 'partition' else ('', '', s)
            return (mk(r[0]), a[0], mk(r[1]))
        return m(f)
    if name == 'splitlines':
        return m(lambda I, a, k: VList(splitlines(I, s, I.truth(a[0]) if a else I.truth(k.get('keepends', False)))))
    if name == 'join':
        def f(I, a, k):
            items = list(I.iterate(a[0]))
            for x in items:
                if not is_str(x):
                    if isinstance(x, (Opq, Noop)):
                        raise Imprecise('join')
                    I.raise_('TypeError', 'sequence item: expected str')
            return join_(s, items)
        return m(f)
    if name in ('lower', 'casefold'):
        return m(lambda I, a, k: lower(s))
    if name == 'upper':
        return m(lambda I, a, k: upper(s))
    if name == 'capitalize':
        return m(lambda I, a, k: capitalize(s))
    if name == 'title':
        if isinstance(s, str):
            return m(lambda I, a, k: s.title())
        return m(lambda I, a, k: derived('title', s, str.title))
    if name == 'replace':
        return m(lambda I, a, k: replace(I, s, *a))
    if name in ('find', 'index'):
        def f(I, a, k):
            t, off = s, 0
            if len(a) > 1:
                off = abspos(s, I.posval(a[1]))
                _, t = cut(s, off)
                t = mk(t)
            r = find_split(t, a[0])
            if r is None:
                if name == 'index':
                    I.raise_('ValueError', 'substring not found')
                return -1
            return ladd(off, plen(r[0]))
        return m(f)
    if name in ('rfind', 'rindex'):
        def f(I, a, k):
            r = find_split(s, a[0], True)
            if r is None:
                if name == 'rindex':
                    I.raise_('ValueError', 'substring not found')
                return -1
            return plen(r[0])
        return m(f)
    if name == 'count':
        def f(I, a, k):
            if isinstance(s, str) and isinstance(a[0], str):
                return s.count(a[0])
            if isinstance(a[0], str):
                n = 0
                t = norm(s)
                while True:
                    r = find_split(t, a[0])
                    if r is None:
                        return n
                    n += 1
                    t = r[1]
                    if n > 3:
                        raise Bounded('count')
            raise Imprecise('count')
        return m(f)
    tests = {'isspace': WS, 'isalnum': ALNUM, 'isnumeric': NUMERIC, 'isdigit': DIGIT, 'isdecimal': DECIMAL, 'isalpha': ALPHAB}
    if name in tests:
        return m(lambda I, a, k: getattr(s, name)() if isinstance(s, str) else all_in(s, tests[name], name))
    if name in ('isidentifier', 'isupper', 'islower', 'istitle', 'isascii', 'isprintable'):
        return m(lambda I, a, k: opaque_test(name, s, lambda t: getattr(t, name)()))
    if name == 'removeprefix':
        def f(I, a, k):
            if startswith(s, a[0]):
                return mk(cut(s, plen(a[0]))[1])
            return s
        return m(f)
    if name == 'removesuffix':
        def f(I, a, k):
            if isinstance(a[0], str) and a[0] and endswith(s, a[0]):
                return mk(force_suffix(s, a[0]))
            return s
        return m(f)
    if name == 'encode':
        def f(I, a, k):
            enc = a[0] if a else k.get('encoding', 'utf-8')
            err = a[1] if len(a) > 1 else k.get('errors', 'strict')
            h = I.hooks.get('encode')
            if h:
                h(I, s, enc, err)
            return ABytes(s, enc, err)
        return m(f)
    if name == 'format':
        def f(I, a, k):
            if not isinstance(s, str):
                raise Imprecise('str.format')
            out = []
            auto = 0
            for lit, field, spec, conv in pystring.Formatter().parse(s):
                out.append(lit)
                if field is None:
                    continue
                if field == '':
                    v = a[auto]
                    auto += 1
                elif field.isdigit():
                    v = a[int(field)]
                elif field.isidentifier() and field in k:
                    v = k[field]
                else:
                    raise Imprecise('str.format')
                if conv == 'r':
                    v = repr_(I, v)
                out.append(format_(I, v, spec or ''))
            return mk(out)
        return m(f)
    if name == 'translate':
        def f(I, a, k):
            if not isinstance(a[0], VDict):
                raise Imprecise('translate')
            t = {}
            for key, v in [(e[0], e[1]) for e in a[0].items]:
                if not isinstance(key, int) or not (v is None or isinstance(v, (int, str))):
                    raise Imprecise('translate')
                t[key] = v
            if isinstance(s, str):
                return s.translate(t)
            if all(isinstance(v, str) or v is None for v in t.values()) and not any(chr(x) in (v or '') for x in t for v in t.values()):
                r = s
                for x, v in t.items():
                    r = I.call(I.getattr(r, 'replace'), [chr(x), v or ''])
                return r
            raise Imprecise('translate')
        return m(f)
    if name in ('ljust', 'rjust', 'zfill', 'center', 'expandtabs', 'swapcase', 'format_map'):
        def f(I, a, k):
            if isinstance(s, str) and all(isinstance(x, (int, str)) for x in a):
                return getattr(s, name)(*a)
            if all(isinstance(x, (int, str)) for x in a):
                return derived(name, s, lambda t: getattr(t, name)(*a), extra=tuple(a))
            raise Imprecise(name)
        return m(f)
    if name in ('__len__', '__contains__', '__str__', '__eq__', '__add__', '__getitem__', '__hash__', '__iter__'):
        d = {'__len__': lambda I, a, k: I.len_(s), '__contains__': lambda I, a, k: I.contains(s, a[0]),
             '__str__': lambda I, a, k: s, '__eq__': lambda I, a, k: I.eq(s, a[0]),
             '__add__': lambda I, a, k: I.binop(ast.Add(), s, a[0]), '__getitem__': lambda I, a, k: I.getitem(s, a[0]),
             '__hash__': lambda I, a, k: hash_(I, s), '__iter__': lambda I, a, k: VIter(I.iterate(s))}
        return m(d[name])
    return _MISSING


def list_method(I, l, name):
    def m(fn):
        return VBuiltin('list.' + name, fn)
    it = l.items
    if name == 'append':
        return m(lambda I, a, k: l.items.append(a[0]))
    if name == 'extend':
        def f(I, a, k):
            if a[0] is l:
                l.items.extend(list(l.items))
                return
            for x in I.iterate(a[0]):
                l.items.append(x)
        return m(f)
    if name == 'insert':
        def f(I, a, k):
            i = a[0]
            if isinstance(i, (OInt, Lin)):
                i = I.index_of(i, len(l.items) + 1)
            if not isinstance(i, int):
                raise Imprecise('insert')
            l.items.insert(i, a[1])
        return m(f)
    if name == 'pop':
        def f(I, a, k):
            if not l.items:
                I.raise_('IndexError', 'pop from empty list')
            i = I.index_of(a[0], len(l.items)) if a else -1
            if not -len(l.items) <= i < len(l.items):
                I.raise_('IndexError', 'pop index')
            return l.items.pop(i)
        return m(f)
    if name == 'copy':
        return m(lambda I, a, k: VList(l.items))
    if name == 'clear':
        return m(lambda I, a, k: l.items.clear())
    if name == 'reverse':
        return m(lambda I, a, k: l.items.reverse())
    if name == 'index':
        def f(I, a, k):
            lo = a[1] if len(a) > 1 else 0
            hi = a[2] if len(a) > 2 else len(l.items)
            n = len(l.items)
            lo = max(0, lo + n) if lo < 0 else lo
            hi = max(0, hi + n) if hi < 0 else hi
            for i in range(lo, min(hi, n)):
                if l.items[i] is a[0] or I.eq(l.items[i], a[0]):
                    return i
            I.raise_('ValueError', 'not in list')
        return m(f)
    if name == 'count':
        return m(lambda I, a, k: sum(1 for x in l.items if x is a[0] or I.eq(x, a[0])))
    if name == 'remove':
        def f(I, a, k):
            for i, x in enumerate(l.items):
                if x is a[0] or I.eq(x, a[0]):
                    del l.items[i]
                    return None
            I.raise_('ValueError', 'not in list')
        return m(f)
    if name == 'sort':
        def f(I, a, k):
            l.items[:] = sort_(I, list(l.items), k.get('key'), I.truth(k.get('reverse', False)))
        return m(f)
    special = {
        '__len__': lambda I, a, k: len(l.items),
        '__contains__': lambda I, a, k: I.contains(l, a[0]),
        '__getitem__': lambda I, a, k: I.getitem(l, a[0]),
        '__setitem__': lambda I, a, k: I.setitem(l, a[0], a[1]),
        '__delitem__': lambda I, a, k: I.delitem(l, a[0]),
        '__iter__': lambda I, a, k: VIter(I.iterate(l)),
        '__add__': lambda I, a, k: I.binop(ast.Add(), l, a[0]),
        '__eq__': lambda I, a, k: I.eq(l, a[0]),
        '__reversed__': lambda I, a, k: VIter(iter(list(reversed(l.items)))),
    }
    if name in special:
        return m(special[name])
    return _MISSING


def sort_(I, items, key, reverse=False):
    ks = [x if key is None else I.call(key, [x]) for x in items]
    idx = list(range(len(items)))
    # insertion sort with abstract comparisons (stable)
    out = []
    for i in idx:
        j = len(out)
        while j > 0:
            a, b = ks[i], ks[out[j - 1]]
            lt = I.truth(I.order(a, b, '__lt__', '__gt__', '<')) if not reverse else I.truth(I.order(b, a, '__lt__', '__gt__', '<'))
            if lt:
                j -= 1
            else:
                break
        out.insert(j, i)
    return [items[i] for i in out]


def dict_method(I, d, name):
    def m(fn):
        return VBuiltin('dict.' + name, fn)
    if isinstance(d, VAttrDict):
        A = d.obj.attrs
        tbl = {
            'items': lambda I, a, k: VList([(x, y) for x, y in A.items()]),
            'keys': lambda I, a, k: VList(list(A)),
            'values': lambda I, a, k: VList(list(A.values())),
            'get': lambda I, a, k: A.get(a[0], a[1] if len(a) > 1 else None),
            'copy': lambda I, a, k: VDict(list(A.items())),
            'pop': lambda I, a, k: A.pop(a[0], *a[1:]),
            'update': lambda I, a, k: [A.__setitem__(x, I.getitem(a[0], x)) for x in (I.iterate(a[0]) if a else [])] and None or [A.__setitem__(x, y) for x, y in k.items()] and None,
            'setdefault': lambda I, a, k: A.setdefault(a[0], a[1] if len(a) > 1 else None),
        }
        return m(tbl[name]) if name in tbl else _MISSING
    if name == 'get':
        def f(I, a, k):
            if is_str(a[0]) and not isinstance(a[0], str) and len(d.items) > 6 and all(isinstance(x[0], str) for x in d.items):
                return big_get(I, d, a[0], a[1] if len(a) > 1 else None)
            e = d.slot(a[0])
            return e[1] if e is not None else (a[1] if len(a) > 1 else k.get('default'))
        return m(f)
    if name == 'items':
        return m(lambda I, a, k: VList([(x[0], x[1]) for x in d.items]))
    if name == 'keys':
        return m(lambda I, a, k: VList([x[0] for x in d.items]))
    if name == 'values':
        return m(lambda I, a, k: VList([x[1] for x in d.items]))
    if name == 'copy':
        return m(lambda I, a, k: VDict(d.items))
    if name == 'clear':
        def f(I, a, k):
            d.items = []
            d.fast = {}
        return m(f)
    if name == 'pop':
        def f(I, a, k):
            e = d.slot(a[0])
            if e is None:
                if len(a) > 1:
                    return a[1]
                I.raise_('KeyError', a[0])
            d.drop(a[0])
            return e[1]
        return m(f)
    if name == 'popitem':
        def f(I, a, k):
            if not d.items:
                I.raise_('KeyError', 'empty')
            e = d.items[-1]
            d.drop(e[0])
            return (e[0], e[1])
        return m(f)
    if name == 'setdefault':
        def f(I, a, k):
            e = d.slot(a[0])
            if e is None:
                v = a[1] if len(a) > 1 else None
                d.put(a[0], v)
                return v
            return e[1]
        return m(f)
    if name == 'update':
        def f(I, a, k):
            if a:
                o = a[0]
                if isinstance(o, VDict):
                    for x, y in o.items:
                        d.put(x, y)
                elif isinstance(o, VObj) and o.cls.lookup('keys') is not None:
                    for x in I.iterate(I.call(I.getattr(o, 'keys'), [])):
                        d.put(x, I.getitem(o, x))
                else:
                    for p in I.iterate(o):
                        x, y = list(I.iterate(p))
                        d.put(x, y)
            for x, y in k.items():
                d.put(x, y)
        return m(f)
    sp = {'__contains__': lambda I, a, k: I.contains(d, a[0]), '__getitem__': lambda I, a, k: I.getitem(d, a[0]),
          '__setitem__': lambda I, a, k: I.setitem(d, a[0], a[1]), '__delitem__': lambda I, a, k: I.delitem(d, a[0]),
          '__len__': lambda I, a, k: len(d.items), '__iter__': lambda I, a, k: VIter(I.iterate(d))}
    if name in sp:
        return m(sp[name])
    return _MISSING


def big_get(I, d, key, default):
    """lookup of an abstract string in a large literal table: partition by value"""
    c = cur()
    k = ('bigget', id(d), key_of(key))
    if k in c.memo:
        return c.memo[k]
    vals = []
    for kk, v in d.items:
        if tri_eq(kk, key) is False:
            continue
        for e in vals:
            if e[0] is v or (hkey(v) is not None and hkey(e[0]) == hkey(v)):
                e[1].append(kk)
                break
        else:
            vals.append((v, [kk]))
    o = c.choose(len(vals) + 1, 'table lookup')
    if o == len(vals):
        allk = {x[0] for x in d.items}
        c.fact('not in table', lambda env: conc(key, env) not in allk)
        r = default
    else:
        r, ks = vals[o]
        if len(ks) == 1:
            unify(key, ks[0])
        else:
            kset = set(ks)
            c.fact('in table', lambda env: conc(key, env) in kset)
    c.memo[k] = r
    return r


def set_method(I, s, name):
    def m(fn):
        return VBuiltin('set.' + name, fn)

    def add(x):
        if not I.contains(s, x):
            s.items.append(x)

    def upd(I, a, k):
        for it in a:
            for x in list(I.iterate(it)):
                add(x)

    def disc(I, a, k):
        s.items[:] = [x for x in s.items if not I.eq(x, a[0])]

    def rem(I, a, k):
        n = len(s.items)
        disc(I, a, k)
        if len(s.items) == n:
            I.raise_('KeyError', a[0])

    def union(I, a, k):
        r = VSet(s.items)
        for it in a:
            for x in I.iterate(it):
                if not I.contains(r, x):
                    r.items.append(x)
        return r

    def diff(I, a, k):
        others = [VList(list(I.iterate(x))) for x in a]
        return VSet([x for x in s.items if not any(I.contains(o, x) for o in others)])

    def inter(I, a, k):
        others = [VList(list(I.iterate(x))) for x in a]
        return VSet([x for x in s.items if all(I.contains(o, x) for o in others)])

    def pop(I, a, k):
        if not s.items:
            I.raise_('KeyError', 'pop from an empty set')
        return s.items.pop(0)
    tbl = {'add': lambda I, a, k: add(a[0]), 'update': upd, 'discard': disc, 'remove': rem, 'union': union,
           'difference': diff, 'intersection': inter, 'copy': lambda I, a, k: VSet(s.items), 'pop': pop,
           'clear': lambda I, a, k: s.items.clear(),
           'issubset': lambda I, a, k: all(I.contains(a[0], x) for x in s.items),
           'issuperset': lambda I, a, k: all(I.contains(s, x) for x in I.iterate(a[0])),
           'isdisjoint': lambda I, a, k: not any(I.contains(s, x) for x in I.iterate(a[0])),
           '__contains__': lambda I, a, k: I.contains(s, a[0])}
    return m(tbl[name]) if name in tbl else _MISSING


# ------------------------------------------------------------------ regex

class VPattern:
    def __init__(self, src, flags):
        self.src = src
        self.flags = flags
        self._rx = None

    def rx(self, I):
        if not isinstance(self.src, str):
            raise Imprecise('abstract pattern')
        if self._rx is None:
            try:
                self._rx = rx.Rx.get(self.src, self.flags)
            except re.error:
                I.raise_(I.modules['re'].attrs['error'], 'bad pattern')
        return self._rx

    def __repr__(self):
        return 'rx(%r)' % (self.src,)


class VMatch:
    def __init__(self, m, rx_, s):
        self.m = m
        self.rx = rx_
        self.s = s

    def gid(self, I, g):
        if isinstance(g, int):
            if not 0 <= g <= self.rx.groups:
                I.raise_('IndexError', 'no such group')
            return g
        if isinstance(g, str):
            i = self.rx.groupindex.get(g)
            if i is None:
                I.raise_('IndexError', 'no such group')
            return i
        raise Imprecise('group name')

    def group(self, I, g):
        return self.m.group(self.gid(I, g))

    def start(self, I, g):
        return self.m.start(self.gid(I, g))

    def end(self, I, g):
        return self.m.end(self.gid(I, g))


def pattern_of(I, p, flags=0):
    if isinstance(p, VPattern):
        return p
    if not is_str(p):
        raise Imprecise('pattern')
    return VPattern(p, flags)


def wrap_match(I, m, r, s):
    return None if m is None else VMatch(m, r, s)


def pat_match(I, p, mode, s):
    h = I.hooks.get('regex')
    if h:
        x = h(I, p, mode, s)
        if x is not NotImplemented:
            return x
    if not is_str(s):
        if isinstance(s, (Opq, Noop)):
            raise Imprecise('match on opaque')
        I.raise_('TypeError', 'expected string')
    r = p.rx(I)
    return wrap_match(I, rx.do_match(r, s, mode), r, s)


def pat_finditer(I, p, s):
    r = p.rx(I)
    if isinstance(s, str):
        for m in r.re.finditer(s):
            yield VMatch(m, r, s)
        return
    rest = s
    n = 0
    while True:
        m = rx.do_match(r, rest, 'search')
        if m is None:
            return
        if not isinstance(m, rx.AMatch):
            raise Imprecise('finditer tail')
        if n:
            raise Bounded('finditer')
        yield VMatch(m, r, rest)
        if not norm(m.whole):
            raise Imprecise('empty finditer')
        rest = mk(m.rest)
        n += 1


def pat_sub(I, p, repl, s, count=0):
    r = p.rx(I)
    if isinstance(s, str) and isinstance(repl, str):
        return r.re.sub(repl, s, count)
    x = rx.do_sub(r, repl, s, count) if isinstance(repl, str) else None
    if x is not None:
        return x
    if not isinstance(repl, str) and not is_str(repl):
        if isinstance(s, str):
            out, last = [], 0
            for n, mt in enumerate(r.re.finditer(s)):
                if count and n >= count:
                    break
                out += [s[last:mt.start()], I.call(repl, [VMatch(mt, r, s)])]
                last = mt.end()
            return mk([x for x in out + [s[last:]] if not (isinstance(x, str) and not x)] or [''])
        # function replacement on class patterns
        fc = rx.first_class(r)
        t = list(r.tree)
        if fc is not None and rx.char_mask(*t[0], r.fl) is not None and not count:
            raise Imprecise('sub with function')
        raise Imprecise('sub with function')
    if isinstance(repl, str):
        return derived('sub', s, lambda t: r.re.sub(repl, t, count), extra=(r.src, r.flags, repl, count))
    raise Imprecise('sub')


def pat_attr(I, p, name):
    def m(fn):
        return VBuiltin('re.' + name, fn)
    if name in ('match', 'fullmatch', 'search'):
        def g(I, a, k):
            pos = a[1] if len(a) > 1 else k.get('pos', 0)
            if len(a) > 2 or 'endpos' in k:
                raise Imprecise('endpos')
            if 'string' in k:
                a = [k['string']] + list(a)
            if pos != 0 or not isinstance(pos, int):
                if not isinstance(a[0], str) or not isinstance(pos, int):
                    raise Imprecise('pos')
                mt = getattr(p.rx(I).re, name)(a[0], pos)
                return None if mt is None else VMatch(mt, p.rx(I), a[0])
            return pat_match(I, p, name, a[0])
        return m(g)
    if name == 'split':
        return m(lambda I, a, k: VList(rx.do_split(p.rx(I), a[0], a[1] if len(a) > 1 else k.get('maxsplit', 0))))
    if name == 'sub':
        return m(lambda I, a, k: pat_sub(I, p, a[0], a[1], a[2] if len(a) > 2 else k.get('count', 0)))
    if name == 'finditer':
        return m(lambda I, a, k: VIter(pat_finditer(I, p, a[0])))
    if name == 'findall':
        def f(I, a, k):
            out = []
            for mm in pat_finditer(I, p, a[0]):
                n = mm.rx.groups
                out.append(mm.group(I, 0) if n == 0 else mm.group(I, 1) if n == 1 else tuple(mm.group(I, i) for i in range(1, n + 1)))
            return VList(out)
        return m(f)
    if name == 'pattern':
        return p.src
    if name == 'flags':
        return p.flags
    if name == 'groupindex':
        return VDict(list(p.rx(I).groupindex.items()))
    if name == 'groups':
        return p.rx(I).groups
    return _MISSING


def match_attr(I, mt, name):
    def m(fn):
        return VBuiltin('match.' + name, fn)
    if name == 'group' or name == '__getitem__':
        def f(I, a, k):
            if not a:
                return mt.group(I, 0)
            if len(a) == 1:
                return mt.group(I, a[0])
            return tuple(mt.group(I, g) for g in a)
        return m(f)
    if name == 'groups':
        def f(I, a, k):
            d = a[0] if a else k.get('default')
            out = []
            for i in range(1, mt.rx.groups + 1):
                v = mt.group(I, i)
                out.append(d if v is None else v)
            return tuple(out)
        return m(f)
    if name == 'groupdict':
        def f(I, a, k):
            d = a[0] if a else k.get('default')
            return VDict([(n, d if mt.group(I, n) is None else mt.group(I, n)) for n in mt.rx.groupindex])
        return m(f)
    if name == 'start':
        return m(lambda I, a, k: mt.start(I, a[0] if a else 0))
    if name == 'end':
        return m(lambda I, a, k: mt.end(I, a[0] if a else 0))
    if name == 'span':
        return m(lambda I, a, k: (mt.start(I, a[0] if a else 0), mt.end(I, a[0] if a else 0)))
    if name == 'string':
        return mt.s
    if name == 're':
        return VPattern(mt.rx.src, mt.rx.flags)
    if isinstance(mt.m, re.Match):
        if name == 'lastindex':
            return mt.m.lastindex
        if name == 'expand':
            return m(lambda I, a, k: mt.m.expand(a[0]))
    return _MISSING


REAL = ((VList, list), ((VDict, VAttrDict), (dict, collections.OrderedDict, collections.Counter, collections.defaultdict)), (VSet, set), (bool, bool), (int, int), (float, float), (tuple, tuple), (bytes, bytes), (VMatch, re.Match), (VPattern, re.Pattern))


def real_attr(o, name):
    """does the real type of a native value have the attribute (then its absence is ours)"""
    if is_str(o):
        return hasattr(str, name)
    for t, real in REAL:
        if isinstance(o, t):
            return any(hasattr(r, name) for r in (real if isinstance(real, tuple) else (real,)))
    return not isinstance(o, type(None)) and not name.startswith('__')


def real_class_attr(c, name):
    real = {'str': str, 'int': int, 'list': list, 'dict': dict, 'set': set, 'tuple': tuple, 'bytes': bytes, 'frozenset': frozenset, 'float': float, 'object': object, 'type': type, 'bool': bool}.get(c.name)
    return real is not None and c.module in (None, '', 'builtins') and hasattr(real, name)


# ----------------------------------------------------------- native dispatch

def native_attr(I, o, name):
    if is_str(o):
        return str_method(I, o, name)
    if isinstance(o, VList):
        return list_method(I, o, name)
    if isinstance(o, (VDict, VAttrDict)):
        return dict_method(I, o, name)
    if isinstance(o, VSet):
        return set_method(I, o, name)
    if isinstance(o, VPattern):
        return pat_attr(I, o, name)
    if isinstance(o, VMatch):
        return match_attr(I, o, name)
    if isinstance(o, VGen):
        return gen_attr(I, o, name)
    if isinstance(o, VIter):
        if name == '__next__':
            return VBuiltin('next', lambda I, a, k: iter_next(I, o))
        if name == '__iter__':
            return VBuiltin('iter', lambda I, a, k: o)
        return _MISSING
    if isinstance(o, tuple):
        if name == 'index':
            return list_method(I, VList(o), 'index')
        if name == 'count':
            return list_method(I, VList(o), 'count')
        if name in ('__len__', '__contains__', '__getitem__', '__iter__', '__eq__'):
            return list_method(I, VList(o), name)
        return _MISSING
    if isinstance(o, VSlice):
        return {'start': o.a, 'stop': o.b, 'step': o.s, 'indices': VBuiltin('indices', lambda I, a, k: tuple(I.pyslice(o, a[0]).indices(a[0])))}.get(name, _MISSING)
    if isinstance(o, VRange):
        if name in ('start', 'stop', 'step'):
            return {'start': o.a, 'stop': o.b, 'step': o.s}[name]
        return _MISSING
    if isinstance(o, ABytes):
        if name == 'decode':
            def f(I, a, k):
                enc = a[0] if a else k.get('encoding', 'utf-8')
                err = a[1] if len(a) > 1 else k.get('errors', 'strict')
                if enc.replace('-', '').lower() == o.enc.replace('-', '').lower() and err == o.errors:
                    return o.s
                raise Imprecise('decode')
            return VBuiltin('decode', f)
        return _MISSING
    if isinstance(o, (bytes, int, float, bool)):
        if name in ('ljust', 'rjust', 'decode', 'splitlines', 'startswith', 'endswith', 'bit_length', 'strip', 'rstrip', 'split', 'join', 'replace'):
            def f(I, a, k):
                if name == 'join' and a:
                    a = [list(I.iterate(a[0]))]
                try:
                    r = getattr(o, name)(*a, **k)
                except (TypeError, AttributeError) as e:
                    if any(not isinstance(x, (bytes, str, int, tuple)) for x in (a[0] if name == 'join' else a)):
                        raise Imprecise('bytes.%s' % name)
                    I.raise_(type(e).__name__, str(e))
                except UnicodeDecodeError:
                    I.raise_('UnicodeDecodeError', 'cannot decode')
                return VList(r) if isinstance(r, list) else r
            return VBuiltin(name, f)
        if name in ('real', 'imag', 'numerator'):
            return getattr(o, name)
        return _MISSING
    if isinstance(o, VBuiltin):
        if name in ('__name__', '__qualname__'):
            return o.name
        fk = getattr(o, 'name', '')
        t = BUILTIN_ATTRS.get((fk, name))
        if t is not None:
            return t
        return _MISSING
    if isinstance(o, (OInt, Lin)):
        return _MISSING
    if o is None:
        return _MISSING
    f = getattr(o, 'abs_attr', None)
    if f is not None:
        return f(I, name)
    raise Imprecise('attribute %s of %r' % (name, o))


BUILTIN_ATTRS = {}


def native_getitem(I, o, k):
    if isinstance(o, VMatch):
        return o.group(I, k)
    f = getattr(o, 'abs_getitem', None)
    if f is not None:
        return f(I, k)
    return _MISSING


def native_setitem(I, o, k, v):
    f = getattr(o, 'abs_setitem', None)
    if f is not None:
        f(I, k, v)
        return True
    return False


def native_delitem(I, o, k):
    f = getattr(o, 'abs_delitem', None)
    if f is not None:
        f(I, k)
        return True
    return False


def gen_attr(I, g, name):
    if name == '__next__':
        return VBuiltin('next', lambda I, a, k: I.gen_next(g))
    if name == 'send':
        return VBuiltin('send', lambda I, a, k: I.gen_next(g, a[0]))
    if name == 'throw':
        def f(I, a, k):
            e = a[0]
            if isinstance(e, VClass):
                e = a[1] if len(a) > 1 and a[1] is not None else I.call(e, [])
            return I.gen_throw(g, e)
        return VBuiltin('throw', f)
    if name == 'close':
        return VBuiltin('close', lambda I, a, k: I.gen_close(g))
    if name == '__iter__':
        return VBuiltin('iter', lambda I, a, k: g)
    if name == 'gi_frame':
        return None if g.done else Noop('frame')
    if name == 'gi_running':
        return g.running
    return _MISSING


def iter_next(I, it):
    try:
        return next(it.it)
    except StopIteration:
        I.raise_('StopIteration')


def next_(I, a, k):
    it = a[0]
    try:
        if isinstance(it, VGen):
            return I.gen_next(it)
        if isinstance(it, VIter):
            return iter_next(I, it)
        if isinstance(it, VObj):
            f = it.cls.lookup('__next__')
            if f is None:
                I.type_error('not an iterator', it)
            return I.call(I.bind_attr(f, it, it.cls), [])
        I.type_error('not an iterator', it)
    except AbsRaise as e:
        if len(a) > 1 and e.exc.cls.issub(I.builtins['StopIteration']):
            return a[1]
        raise


# -------------------------------------------------------------------- copy

def shallow(I, v):
    if isinstance(v, VList):
        return VList(v.items)
    if isinstance(v, VDict):
        return VDict(v.items)
    if isinstance(v, VSet):
        return VSet(v.items, v.frozen)
    if isinstance(v, VObj):
        if v.cls.is_enum:
            return v
        f = v.cls.lookup('__copy__')
        if f is not None:
            return I.call(I.bind_attr(f, v, v.cls), [])
        o = VObj(v.cls)
        o.attrs.update(v.attrs)
        return o
    return v


def deep(I, v, memo):
    if v is None or isinstance(v, (bool, int, float, str, AStr, Lin, OInt, bytes, Opq, VFunc, VClass, VBuiltin, VModule, VPattern, VKey, Noop)):
        return v
    i = id(v)
    e = memo.slot(i)
    if e is not None:
        return e[1]
    if isinstance(v, VObj):
        e = memo.slot(('oid', v.oid))
        e = memo.slot(v.oid)
        if e is not None:
            return e[1]
    if isinstance(v, tuple):
        return tuple(deep(I, x, memo) for x in v)
    if isinstance(v, VList):
        r = VList()
        memo.put(i, r)
        r.items = [deep(I, x, memo) for x in v.items]
        KEEP.append(v)
        return r
    if isinstance(v, VDict):
        r = VDict()
        memo.put(i, r)
        for k, x in v.items:
            r.put(deep(I, k, memo), deep(I, x, memo))
        KEEP.append(v)
        return r
    if isinstance(v, VSet):
        return VSet([deep(I, x, memo) for x in v.items], v.frozen)
    if isinstance(v, VBound):
        return VBound(v.func, deep(I, v.self, memo))
    if isinstance(v, VObj):
        if v.cls.is_enum:
            return v
        f = v.cls.lookup('__deepcopy__')
        if f is not None:
            r = I.call(I.bind_attr(f, v, v.cls), [memo])
            memo.put(v.oid, r)
            return r
        h = I.hooks.get('deepcopy')
        if h:
            r = h(I, v, memo)
            if r is not NotImplemented:
                return r
        r = VObj(v.cls)
        memo.put(v.oid, r)
        for k, x in v.attrs.items():
            r.attrs[k] = deep(I, x, memo)
        return r
    if isinstance(v, VGen):
        I.raise_('TypeError', 'cannot pickle generator')
    raise Imprecise('deepcopy %r' % (v,))


KEEP = []


def freeze(I, v, seen=None):
    """structural content of a value, as pickle.dumps would see it"""
    seen = seen or {}
    if v is None or isinstance(v, (bool, int, float, str, AStr, bytes, Lin, OInt, Opq, VKey)):
        return v
    if isinstance(v, tuple):
        return ('tuple',) + tuple(freeze(I, x, seen) for x in v)
    if isinstance(v, VClass):
        return ('class', id(v))
    if id(v) in seen:
        return ('ref', seen[id(v)])
    seen[id(v)] = len(seen)
    if isinstance(v, VList):
        return ('list',) + tuple(freeze(I, x, seen) for x in v.items)
    if isinstance(v, VSet):
        return ('set',) + tuple(freeze(I, x, seen) for x in v.items)
    if isinstance(v, VDict):
        return ('dict',) + tuple((freeze(I, a, seen), freeze(I, b, seen)) for a, b in v.items)
    if isinstance(v, VObj):
        if v.cls.is_enum:
            return ('enum', id(v))
        return ('obj', id(v.cls)) + tuple((k, freeze(I, x, seen)) for k, x in v.attrs.items())
    if isinstance(v, (VFunc, VBuiltin, VModule)):
        return ('fn', id(v))
    if isinstance(v, VGen):
        I.raise_('TypeError', 'cannot pickle generator')
    raise Imprecise('pickle %r' % (v,))


def hash_(I, v):
    if isinstance(v, (VList, VDict)) or isinstance(v, VSet) and not v.frozen:
        I.raise_('TypeError', 'unhashable')
    return HashVal(freeze_hash(I, v))


class HashVal(int):
    """a hash: equal structure <=> equal hash (no collisions assumed)"""
    def __new__(cls, key):
        o = int.__new__(cls, 0)
        o.key = key
        return o


def freeze_hash(I, v):
    if isinstance(v, VObj):
        if v.cls.is_enum:
            return ('enum', id(v))
        f = v.cls.lookup('__hash__')
        if f is None:
            return ('id', id(v))
        r = I.call(I.bind_attr(f, v, v.cls), [])
        return getattr(r, 'key', r)
    if isinstance(v, tuple):
        return ('tuple',) + tuple(freeze_hash(I, x) for x in v)
    return v


# ----------------------------------------------------------------- builtins

def install(I):
    B = {}
    I.builtins = B
    obj = VClass.__new__(VClass)
    obj.name, obj.bases, obj.attrs, obj.module = 'object', [], {}, 'builtins'
    obj.mro = [obj]
    obj.subclasses = []
    obj.is_enum = obj.is_intenum = False
    B['object'] = obj

    def cls(name, bases=('object',), ctor=None):
        c = VClass(name, [B[b] for b in bases], {}, 'builtins')
        if ctor:
            c.attrs['__native_new__'] = ctor
        B[name] = c
        return c

    def c_str(I, c, a, k):
        if not a:
            return ''
        if len(a) > 1:
            raise Imprecise('str(bytes)')
        return str_(I, a[0])

    def c_list(I, c, a, k):
        return VList(list(I.iterate(a[0])) if a else [])

    def c_set(I, c, a, k):
        s = VSet([], c.name == 'frozenset')
        if a:
            for x in I.iterate(a[0]):
                if not I.contains(s, x):
                    s.items.append(x)
        return s

    def c_dict(I, c, a, k):
        d = VDict()
        dict_method(I, d, 'update').fn(I, a, k)
        return d

    def c_tuple(I, c, a, k):
        return tuple(I.iterate(a[0])) if a else ()

    def c_int(I, c, a, k):
        return to_int(I, *a, **k) if a else 0

    def c_bool(I, c, a, k):
        return I.truth(a[0]) if a else False

    def c_range(I, c, a, k):
        if len(a) == 1:
            return VRange(0, a[0], 1)
        return VRange(a[0], a[1], a[2] if len(a) > 2 else 1)

    def c_slice(I, c, a, k):
        if len(a) == 1:
            return VSlice(None, a[0], None)
        return VSlice(a[0], a[1], a[2] if len(a) > 2 else None)

    def c_type(I, c, a, k):
        if len(a) == 1:
            return I.type_of(a[0])
        raise Imprecise('type()')

    def c_prop(I, c, a, k):
        return VProperty(a[0] if a else k.get('fget'), a[1] if len(a) > 1 else k.get('fset'), a[2] if len(a) > 2 else k.get('fdel'))
    cls('int', ctor=c_int)
    cls('bool', ('int',), c_bool)
    cls('float', ctor=lambda I, c, a, k: float(a[0]) if a and isinstance(a[0], (int, float)) else 0.0)
    cls('str', ctor=c_str)
    cls('bytes', ctor=lambda I, c, a, k: bytes(a[0]) if a and isinstance(a[0], (int, bytes)) else b'')
    cls('list', ctor=c_list)
    cls('tuple', ctor=c_tuple)
    cls('dict', ctor=c_dict)
    cls('set', ctor=c_set)
    cls('frozenset', ctor=c_set)
    cls('NoneType')
    cls('type', ctor=c_type)
    cls('range', ctor=c_range)
    cls('slice', ctor=c_slice)
    cls('generator')
    cls('iterator')
    cls('function')
    cls('method')
    cls('property', ctor=c_prop)
    cls('staticmethod', ctor=lambda I, c, a, k: VStatic(a[0]))
    cls('classmethod', ctor=lambda I, c, a, k: VClassMethod(a[0]))
    B['dict'].attrs['fromkeys'] = VStatic(VBuiltin('fromkeys', lambda I, a, k: VDict([(x, a[1] if len(a) > 1 else None) for x in I.iterate(a[0])])))
    for tname in ('str', 'list', 'dict', 'set', 'tuple'):
        add_unbound(B[tname])

    def exc(name, base):
        c = VClass(name, [B[base]] if isinstance(base, str) else [B[x] for x in base], {}, 'builtins')
        B[name] = c
        return c
    be = VClass('BaseException', [obj], {}, 'builtins')
    B['BaseException'] = be
    be.attrs['__native_new__'] = True

    def exc_init(I, a, k):
        a[0].attrs['args'] = tuple(a[1:])
    be.attrs['__init__'] = VBuiltin('__init__', exc_init)
    be.attrs['with_traceback'] = VBuiltin('with_traceback', lambda I, a, k: a[0])
    for n, b in [('Exception', 'BaseException'), ('KeyboardInterrupt', 'BaseException'), ('GeneratorExit', 'BaseException'),
                 ('SystemExit', 'BaseException'), ('ValueError', 'Exception'), ('TypeError', 'Exception'),
                 ('AttributeError', 'Exception'), ('LookupError', 'Exception'), ('KeyError', 'LookupError'),
                 ('IndexError', 'LookupError'), ('StopIteration', 'Exception'), ('RuntimeError', 'Exception'),
                 ('NotImplementedError', 'RuntimeError'), ('RecursionError', 'RuntimeError'), ('NameError', 'Exception'),
                 ('UnboundLocalError', 'NameError'), ('OSError', 'Exception'), ('FileNotFoundError', 'OSError'),
                 ('PermissionError', 'OSError'), ('FileExistsError', 'OSError'), ('IsADirectoryError', 'OSError'),
                 ('NotADirectoryError', 'OSError'), ('ArithmeticError', 'Exception'), ('ZeroDivisionError', 'ArithmeticError'),
                 ('OverflowError', 'ArithmeticError'), ('AssertionError', 'Exception'), ('UnicodeError', 'ValueError'),
                 ('UnicodeEncodeError', 'UnicodeError'), ('UnicodeDecodeError', 'UnicodeError'), ('SyntaxError', 'Exception'),
                 ('ImportError', 'Exception'), ('ModuleNotFoundError', 'ImportError'), ('EOFError', 'Exception'),
                 ('MemoryError', 'Exception'), ('BufferError', 'Exception'), ('Warning', 'Exception'),
                 ('DeprecationWarning', 'Warning'), ('UserWarning', 'Warning')]:
        exc(n, b)
    B['IOError'] = B['EnvironmentError'] = B['OSError']
    B['NotImplemented'] = Noop('NotImplemented')
    B['Ellipsis'] = Ellipsis
    B['True'], B['False'], B['None'] = True, False, None
    B['__debug__'] = True

    def fn(name):
        def deco(f):
            B[name] = VBuiltin(name, f)
            return f
        return deco

    @fn('len')
    def _(I, a, k):
        return I.len_(a[0])

    @fn('isinstance')
    def _(I, a, k):
        return I.isinstance_(a[0], a[1])

    @fn('issubclass')
    def _(I, a, k):
        cs = a[1] if isinstance(a[1], tuple) else (a[1],)
        if not isinstance(a[0], VClass):
            raise Imprecise('issubclass')
        return any(a[0].issub(c) for c in cs)

    @fn('iter')
    def _(I, a, k):
        if len(a) == 2:
            def it():
                while True:
                    v = I.call(a[0], [])
                    if I.eq(v, a[1]):
                        return
                    yield v
            return VIter(it())
        if isinstance(a[0], (VGen, VIter)):
            return a[0]
        if isinstance(a[0], VObj) and a[0].cls.lookup('__next__') is not None:
            return a[0]
        return VIter(I.iterate(a[0]))
    B['next'] = VBuiltin('next', next_)

    @fn('enumerate')
    def _(I, a, k):
        start = a[1] if len(a) > 1 else k.get('start', 0)

        def it():
            i = start
            for x in I.iterate(a[0]):
                yield (i, x)
                i += 1
        return VIter(it())

    @fn('zip')
    def _(I, a, k):
        its = [I.iterate(x) for x in a]
        return VIter(zip(*its))

    @fn('reversed')
    def _(I, a, k):
        v = a[0]
        if isinstance(v, VObj):
            f = v.cls.lookup('__reversed__')
            if f is not None:
                return VIter(I.iterate(I.call(I.bind_attr(f, v, v.cls), [])))
            n = I.len_(v)
            return VIter(I.getitem(v, i) for i in range(n - 1, -1, -1))
        if isinstance(v, (VIter, VGen)):
            I.raise_('TypeError', 'not reversible')
        return VIter(iter(list(I.iterate(v))[::-1]))

    @fn('sorted')
    def _(I, a, k):
        return VList(sort_(I, list(I.iterate(a[0])), k.get('key'), I.truth(k.get('reverse', False))))

    @fn('any')
    def _(I, a, k):
        for x in I.iterate(a[0]):
            if I.truth(x):
                return True
        return False

    @fn('all')
    def _(I, a, k):
        for x in I.iterate(a[0]):
            if not I.truth(x):
                return False
        return True

    @fn('sum')
    def _(I, a, k):
        t = a[1] if len(a) > 1 else k.get('start', 0)
        for x in I.iterate(a[0]):
            t = I.binop(ast.Add(), t, x)
        return t

    def minmax(name, sym):
        def f(I, a, k):
            items = list(I.iterate(a[0])) if len(a) == 1 else list(a)
            if not items:
                if 'default' in k:
                    return k['default']
                I.raise_('ValueError', 'empty sequence')
            key = k.get('key')
            best = items[0]
            bk = best if key is None else I.call(key, [best])
            for x in items[1:]:
                xk = x if key is None else I.call(key, [x])
                if I.truth(I.order(xk, bk, '__lt__' if sym == '<' else '__gt__', '__gt__' if sym == '<' else '__lt__', sym)):
                    best, bk = x, xk
            return best
        B[name] = VBuiltin(name, f)
    minmax('min', '<')
    minmax('max', '>')

    @fn('abs')
    def _(I, a, k):
        v = a[0]
        if isinstance(v, (int, float)):
            return abs(v)
        if isinstance(v, OInt):
            if v.lo is not None and v.lo >= 0:
                return v
            c = cur()
            kk = ('abs', id(v))
            if kk not in c.memo:
                c.memo[kk] = (OInt('abs(%s)' % v.name, 0), v)
            return c.memo[kk][0]
        raise Imprecise('abs')

    @fn('getattr')
    def _(I, a, k):
        return I.getattr(a[0], a[1], *(a[2:3]))

    @fn('setattr')
    def _(I, a, k):
        I.setattr(a[0], a[1], a[2])

    @fn('delattr')
    def _(I, a, k):
        I.delattr(a[0], a[1])

    @fn('hasattr')
    def _(I, a, k):
        return I.getattr(a[0], a[1], _interp._MISSING2) is not _interp._MISSING2

    @fn('callable')
    def _(I, a, k):
        v = a[0]
        return isinstance(v, (VFunc, VBuiltin, VBound, VClass)) or isinstance(v, VObj) and v.cls.lookup('__call__') is not None

    @fn('id')
    def _(I, a, k):
        v = a[0]
        return v.oid if isinstance(v, VObj) else id(v)

    @fn('hash')
    def _(I, a, k):
        return hash_(I, a[0])

    @fn('repr')
    def _(I, a, k):
        return repr_(I, a[0])

    @fn('format')
    def _(I, a, k):
        return format_(I, a[0], a[1] if len(a) > 1 else '')

    @fn('print')
    def _(I, a, k):
        return None

    @fn('ord')
    def _(I, a, k):
        if isinstance(a[0], str):
            return ord(a[0])
        raise Imprecise('ord')

    @fn('chr')
    def _(I, a, k):
        return chr(a[0])

    @fn('map')
    def _(I, a, k):
        def it():
            for xs in zip(*[I.iterate(x) for x in a[1:]]):
                yield I.call(a[0], list(xs))
        return VIter(it())

    @fn('filter')
    def _(I, a, k):
        def it():
            for x in I.iterate(a[1]):
                if I.truth(x if a[0] is None else I.call(a[0], [x])):
                    yield x
        return VIter(it())

    @fn('vars')
    def _(I, a, k):
        return VAttrDict(a[0])

    @fn('divmod')
    def _(I, a, k):
        return divmod(a[0], a[1])

    @fn('super')
    def _(I, a, k):
        return VSuper(a[0], a[1])

    @fn('open')
    def _(I, a, k):
        h = I.hooks.get('open')
        if h:
            return h(I, a, k)
        from . import world
        return world.open_(I, a[0], a[1] if len(a) > 1 else k.get('mode', 'r'), k.get('encoding'), k.get('errors'))

    # object methods
    om = object_methods
    om['__init__'] = VBuiltin('__init__', lambda I, a, k: None)
    om['__new__'] = VBuiltin('__new__', lambda I, a, k: VObj(a[0]))
    om['__setattr__'] = VBuiltin('__setattr__', lambda I, a, k: I.object_setattr(a[0], a[1], a[2]))
    om['__delattr__'] = VBuiltin('__delattr__', lambda I, a, k: I.object_delattr(a[0], a[1]))
    om['__getattribute__'] = VBuiltin('__getattribute__', lambda I, a, k: I.object_getattribute(a[0], a[1]) if isinstance(a[1], str) else I.raise_('AttributeError', a[1]))
    om['__eq__'] = VBuiltin('__eq__', lambda I, a, k: True if a[0] is a[1] else I.builtins['NotImplemented'])
    om['__ne__'] = VBuiltin('__ne__', lambda I, a, k: not I.eq(a[0], a[1]))
    om['__str__'] = VBuiltin('__str__', lambda I, a, k: repr_(I, a[0]))
    om['__repr__'] = VBuiltin('__repr__', lambda I, a, k: '<object>')
    om['__hash__'] = VBuiltin('__hash__', lambda I, a, k: HashVal(('id', id(a[0]))))
    om['__init_subclass__'] = VBuiltin('__init_subclass__', lambda I, a, k: None)


def maketrans(I, a, k):
    if len(a) == 1 and isinstance(a[0], VDict):
        out = [(ord(e[0]) if isinstance(e[0], str) else e[0], e[1]) for e in a[0].items]
    elif all(isinstance(x, str) for x in a) and len(a) in (2, 3):
        out = list(str.maketrans(*a).items())
    else:
        raise Imprecise('maketrans')
    return VDict(out)


def add_unbound(c):
    """str.lower etc. used as functions"""
    names = {'str': ['lower', 'upper', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith', 'split', 'isspace', 'isalnum', 'join', 'splitlines', 'capitalize'],
             'list': ['append', 'copy', 'insert', 'extend', '__getitem__', 'pop', '__init__'], 'dict': ['get', 'items', 'copy'],
             'set': ['add', 'update', 'union'], 'tuple': []}[c.name]
    for n in names:
        def f(I, a, k, n=n):
            return I.call(I.getattr(a[0], n), a[1:], k)
        c.attrs.setdefault(n, VBuiltin(n, f))
    if c.name == 'str':
        c.attrs['maketrans'] = VStatic(VBuiltin('maketrans', maketrans))


_interp._MISSING2 = object()


def finish_enum(I, cls, node):
    members = []
    n = 0
    order = []
    for s in node.body:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    order.append(t.id)
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            order.append(s.target.id)
    for nm in order:
        if nm.startswith('_'):
            continue
        v = cls.attrs[nm]
        if isinstance(v, (VFunc, VProperty, VStatic, VClassMethod)):
            continue
        if isinstance(v, Noop) and v.name == 'auto':
            n += 1
            v = n
        elif isinstance(v, int):
            n = v
        dup = [m for m in members if hkey(v) is not None and hkey(m.attrs['_value_']) == hkey(v)]
        if dup:
            cls.attrs[nm] = dup[0]
            continue
        o = VObj(cls, {'_name_': nm, '_value_': v, 'name': nm, 'value': v})
        cls.attrs[nm] = o
        members.append(o)
    cls.attrs['__enum_members__'] = members


# ---------------------------------------------------------------- std modules

def from_source(I, fn, names, extra=None, modname=None):
    """evaluate selected top level definitions of a stdlib / prelude file"""
    tree = parse_file(fn)
    m = VModule(modname or fn)
    m.attrs.update(extra or {})
    env = Env(None, m)
    env.vars = m.attrs
    for s in tree.body:
        nm = getattr(s, 'name', None)
        if nm in names:
            it = I.block([s], env)
            try:
                next(it)
            except StopIteration:
                pass
    return m


def datetime_module(I):
    """dates are concrete; the current time comes from the world (I.world.now: local, I.world.now_utc)"""
    import calendar

    def other(I, a, k):
        raise Imprecise('date operation')

    def now(which):
        def f(I, a, k):
            v = getattr(I.world, which, None)
            if v is None:
                raise Imprecise('current time')
            return tuple(v)
        return f

    def weekday(I, a, k):
        if not all(isinstance(x, int) for x in a):
            raise Imprecise('weekday of free date')
        return calendar.weekday(*a)
    m = from_source(I, os.path.join(HERE, 'dt_src.py'), ['tzinfo', 'timezone', 'date', 'datetime'],
                    {'_other': VBuiltin('_other', other), '_now': VBuiltin('_now', now('now')), '_now_utc': VBuiltin('_now_utc', now('now_utc')), '_weekday': VBuiltin('_weekday', weekday)}, 'datetime')
    m.attrs['timezone'].attrs['utc'] = I.call(m.attrs['timezone'], ['UTC'])
    m.attrs['UTC'] = m.attrs['timezone'].attrs['utc']
    m.attrs['timedelta'] = Noop('datetime.timedelta')
    m.attrs['MINYEAR'], m.attrs['MAXYEAR'] = 1, 9999
    return m


def stdfile(name):
    return os.path.join(os.path.dirname(os.__file__), name)


def prelude(I):
    if getattr(I, '_prelude', None) is None:
        tree = parse_file(os.path.join(HERE, 'prelude.py'))
        m = VModule('prelude')
        env = Env(None, m)
        env.vars = m.attrs
        it = I.block(tree.body, env)
        try:
            next(it)
        except StopIteration:
            pass
        I._prelude = m
    return I._prelude


def identity_decorator(name):
    return VBuiltin(name, lambda I, a, k: a[0])


def std_module(I, name):
    B = I.builtins
    M = lambda attrs: VModule(name, attrs)
    f = lambda n, fn: VBuiltin(n, fn)
    if name == 'typing' or name == 'typing_extensions':
        m = VModule(name)
        for n in ('Any', 'List', 'Optional', 'Union', 'Dict', 'Tuple', 'Iterable', 'Iterator', 'Generator', 'Callable', 'Type',
                  'Set', 'Pattern', 'Sequence', 'Mapping', 'NamedTuple', 'Protocol', 'SupportsIndex', 'TypeVar', 'Literal',
                  'ClassVar', 'Final', 'FrozenSet', 'Match', 'Generic', 'MutableSequence', 'Collection', 'NoReturn', 'Self'):
            m.attrs[n] = Noop(n)
        m.attrs['TYPE_CHECKING'] = False
        m.attrs['cast'] = f('cast', lambda I, a, k: a[1])
        m.attrs['overload'] = identity_decorator('overload')
        m.attrs['runtime_checkable'] = identity_decorator('runtime_checkable')
        m.attrs['TypeVar'] = f('TypeVar', lambda I, a, k: Noop('T'))
        m.attrs['no_type_check'] = identity_decorator('x')
        return m
    if name == 'abc':
        c = VClass('ABC', [B['object']], {}, 'abc')
        return M({'ABC': c, 'abstractmethod': identity_decorator('abstractmethod'), 'ABCMeta': Noop('ABCMeta')})
    if name == 're':
        err = VClass('error', [B['Exception']], {}, 're')

        def cp(I, a, k):
            fl = a[1] if len(a) > 1 else k.get('flags', 0)
            if isinstance(a[0], VPattern):
                return a[0]
            if not is_str(a[0]) and not isinstance(a[0], (Noop, Opq, bytes)):
                I.raise_('TypeError', 'first argument must be string or compiled pattern')
            p = VPattern(a[0], fl)
            h = I.hooks.get('compile')
            if h:
                h(I, p)
            if isinstance(a[0], str):
                p.rx(I)
            return p

        def via(nm, npos):
            def g(I, a, k):
                fl = k.pop('flags', 0) if 'flags' in k else (a[npos] if len(a) > npos else 0)
                p = cp(I, [a[0], fl], {})
                return I.call(pat_attr(I, p, nm), a[1:npos], k)
            return f(nm, g)
        def subn(I, a, k):
            if len(a) != 3 or k or not all(isinstance(x, str) for x in a):
                raise Imprecise('subn')
            return re.subn(*a)
        attrs = {'subn': f('subn', subn), 'compile': f('compile', cp), 'match': via('match', 2), 'search': via('search', 2), 'fullmatch': via('fullmatch', 2),
                 'split': via('split', 3), 'sub': via('sub', 4), 'finditer': via('finditer', 2), 'findall': via('findall', 2),
                 'escape': f('escape', lambda I, a, k: esc(I, a[0])), 'error': err, 'Pattern': Noop('Pattern'), 'Match': Noop('Match')}
        for n in ('IGNORECASE', 'I', 'VERBOSE', 'X', 'MULTILINE', 'M', 'DOTALL', 'S', 'ASCII', 'A', 'UNICODE', 'U'):
            attrs[n] = int(getattr(re, n))
        return M(attrs)
    if name == 'copy':
        return M({'copy': f('copy', lambda I, a, k: shallow(I, a[0])),
                  'deepcopy': f('deepcopy', lambda I, a, k: deep(I, a[0], a[1] if len(a) > 1 and a[1] is not None else VDict()))})
    if name == 'itertools':
        p = prelude(I).attrs
        m = M({n: p[n] for n in ('dropwhile', 'takewhile', 'chain', 'groupby', 'islice', 'zip_longest', 'pairwise', 'product', 'repeat', 'accumulate', 'filterfalse', 'starmap', 'compress', 'permutations', 'combinations', 'tee', 'cycle')})
        p['chain'].attrs['from_iterable'] = p['chain_from_iterable']

        def count(I, a, k):
            def it():
                i = a[0] if a else k.get('start', 0)
                st = a[1] if len(a) > 1 else k.get('step', 1)
                while True:
                    yield i
                    i = I.binop(ast.Add(), i, st)
            return VIter(it())
        m.attrs['count'] = f('count', count)
        return m
    if name == 'functools':
        p = prelude(I).attrs

        def upd(I, a, k):
            w, o = a[0], a[1]
            if isinstance(w, (VFunc, VObj)):
                w.attrs['__wrapped__'] = o
                if isinstance(o, VFunc) and isinstance(w, VObj):
                    w.attrs['__name__'] = o.name
                    w.attrs['__doc__'] = None
                if isinstance(o, VFunc):
                    for kk, vv in o.attrs.items():
                        w.attrs.setdefault(kk, vv)
                    w.attrs['__name__'] = o.attrs.get('__name__', o.name)
            return w

        def cached_property(I, a, k):
            o = VObj(cpc)
            o.attrs['func'] = a[0]
            o.attrs['attrname'] = None
            return o

        def cp_get(I, a, k):
            me, obj = a[0], a[1]
            if obj is None:
                return me
            n = me.attrs['func'].name
            if n not in obj.attrs:
                obj.attrs[n] = I.call(me.attrs['func'], [obj])
            return obj.attrs[n]
        cpc = VClass('cached_property', [B['object']], {'__get__': VBuiltin('__get__', cp_get)}, 'functools')

        def cached(I, a, k):
            # the cache of an argumentless/hashable call: model the wrapper faithfully
            fn_ = a[0] if a else None
            if not isinstance(fn_, (VFunc,)):
                return VBuiltin('lru_cache()', lambda I, a2, k2: cached(I, a2, {}))
            cache = VDict()

            def call(I, a2, k2):
                key = freeze_key(a2, k2)
                e = cache.slot(key)
                if e is not None:
                    return e[1]
                v = I.call(fn_, a2, k2)
                cache.put(key, v)
                return v
            fo = VFuncProxy('cached', call, fn_)
            return fo
        return M({'wraps': f('wraps', lambda I, a, k: VBuiltin('wraps', lambda I, a2, k2, o=a[0]: upd(I, [a2[0], o], {}))),
                  'update_wrapper': f('update_wrapper', upd), 'partial': p['partial'], 'reduce': p['reduce'],
                  'lru_cache': f('lru_cache', cached), 'cache': f('cache', cached),
                  'total_ordering': f('total_ordering', total_ordering),
                  'cmp_to_key': p['cmp_to_key'], 'cached_property': f('cached_property', cached_property)})
    if name in ('collections', 'collections.abc', '_collections_abc'):
        if '_collections_abc' not in I.modules or name == '_collections_abc':
            names = ['Hashable', 'Iterable', 'Iterator', 'Reversible', 'Generator', 'Sized', 'Container', 'Collection', 'Callable', 'Set', 'MutableSet',
                     'Mapping', 'MappingView', 'KeysView', 'ItemsView', 'ValuesView', 'MutableMapping', 'Sequence', 'MutableSequence', '_check_methods']
            extra = {'ABCMeta': Noop('ABCMeta'), 'abstractmethod': identity_decorator('abstractmethod'), 'GenericAlias': Noop('GenericAlias'),
                     '_CallableGenericAlias': Noop('x')}
            m = from_source(I, stdfile('_collections_abc.py'), names, extra, '_collections_abc')
            for n in names:
                c = m.attrs.get(n)
                if isinstance(c, VClass):
                    c.attrs['__abc__'] = True
                    for s in ('__subclasshook__', '__class_getitem__', '__slots__'):
                        c.attrs.pop(s, None)
            # abstract Hashable.__hash__ etc. must not shadow object's
            m.attrs['Hashable'].attrs.pop('__hash__', None)
            m.attrs['MutableSequence'].attrs['_MutableSequence__marker'] = None
            mm = m.attrs['MutableMapping']
            mm.attrs['_MutableMapping__marker'] = _pop_marker
            mm.attrs['__marker'] = _pop_marker
            I.modules['_collections_abc'] = m
            if name == '_collections_abc':
                return m
        abcm = I.modules['_collections_abc']
        if name == 'collections.abc':
            return VModule(name, dict(abcm.attrs))
        I.modules['collections.abc'] = VModule('collections.abc', dict(abcm.attrs))
        ul = from_source(I, stdfile('collections/__init__.py'), ['UserList'], {'_collections_abc': abcm}, 'collections')
        ul.attrs['UserList'].attrs.pop('__class_getitem__', None)
        p = prelude(I).attrs

        def dd(I, c, a, k):
            d = VDict()
            d.default_factory = a[0] if a else None
            return d
        ddc = VClass('defaultdict', [B['dict']], {'__native_new__': dd}, 'collections')
        odc = VClass('OrderedDict', [B['dict']], {'__native_new__': B['dict'].attrs['__native_new__']}, 'collections')

        def counter(I, a, k):
            d = VDict()
            d.default_factory = VBuiltin('zero', lambda I, a, k: 0)
            if k or a and isinstance(a[0], VDict):
                raise Imprecise('Counter of a mapping')
            if a:
                for x in I.iterate(a[0]):
                    e = d.slot(x)
                    d.put(x, (e[1] if e else 0) + 1)
            return d

        def namedtuple(I, a, k):
            fs = a[1].replace(',', ' ').split() if isinstance(a[1], str) else list(I.iterate(a[1]))
            ds = list(I.iterate(k['defaults'])) if k.get('defaults') is not None else []
            return make_namedtuple(I, a[0], fs, dict(zip(fs[len(fs) - len(ds):], ds)), {})
        return VModule(name, {'UserList': ul.attrs['UserList'], 'abc': I.modules['collections.abc'], 'deque': p['deque'],
                              'defaultdict': ddc, 'OrderedDict': odc, 'Counter': f('Counter', counter), 'namedtuple': f('namedtuple', namedtuple)})
    if name == 'contextlib':
        p = prelude(I).attrs
        extra = {'abc': I.load_module('abc'), 'AbstractAsyncContextManager': Noop('x'), 'GenericAlias': Noop('x'),
                 'wraps': I.load_module('functools').attrs['wraps'], 'sys': Noop('sys')}
        m = from_source(I, stdfile('contextlib.py'), ['AbstractContextManager', 'ContextDecorator', '_GeneratorContextManagerBase',
                                                      '_GeneratorContextManager', 'contextmanager'], extra, 'contextlib')
        c = m.attrs['AbstractContextManager']
        for s in ('__subclasshook__', '__class_getitem__'):
            c.attrs.pop(s, None)
        for n in ('suppress', 'nullcontext', 'closing', 'ExitStack'):
            m.attrs[n] = p[n]
        m.name = 'contextlib'
        return m
    if name == 'enum':
        e = VClass('Enum', [B['object']], {}, 'enum')
        e.is_enum = True
        e.attrs['__enum_members__'] = []
        ie = VClass('IntEnum', [e, B['int']], {}, 'enum')
        ie.is_intenum = True
        ie.attrs['__enum_members__'] = []
        return M({'Enum': e, 'IntEnum': ie, 'auto': f('auto', lambda I, a, k: Noop('auto')), 'unique': identity_decorator('unique'),
                  'Flag': e, 'StrEnum': VClass('StrEnum', [B['str'], e], {}, 'enum')})
    if name == 'dataclasses':
        def field(I, a, k):
            return ('__field__', k.get('default', _MISSING), k.get('default_factory', _MISSING), k.get('init', True), k.get('compare', True))

        def dataclass(I, a, k):
            if not a:
                return VBuiltin('dataclass()', lambda I, a2, k2: make_dc(I, a2[0], k))
            return make_dc(I, a[0], k)
        def asdict(I, a, k):
            return VDict([(n, dc_value(I, a[0].attrs[n])) for n, _ in a[0].cls.lookup('__dc_fields__')])
        return M({'dataclass': f('dataclass', dataclass), 'field': f('field', field), 'asdict': f('asdict', asdict),
                  'astuple': f('astuple', lambda I, a, k: tuple(dc_value(I, a[0].attrs[n]) for n, _ in a[0].cls.lookup('__dc_fields__'))),
                  'replace': f('replace', lambda I, a, k: dc_replace(I, a[0], k))})
    if name == 'string':
        return M({n: getattr(pystring, n) for n in ('whitespace', 'digits', 'ascii_letters', 'punctuation', 'ascii_lowercase', 'ascii_uppercase', 'printable', 'hexdigits')} | {'Template': template_class(I)})
    if name == 'logging':
        return M({'getLogger': f('getLogger', lambda I, a, k: Noop('logger'))} | {n: 0 for n in ('DEBUG', 'INFO', 'WARNING')})
    if name == 'ast':
        # pretty-printing of reprs is not part of any rule: every repr is
        # taken as not parseable, formatters then return it as it is
        def parse(I, a, k):
            e = I.call(B['SyntaxError'], ['repr'])
            e.attrs.update(lineno=None, offset=None)
            raise AbsRaise(e)
        return M({'parse': f('parse', parse)})
    if name == 'pickle':
        return M({'dumps': f('dumps', lambda I, a, k: VKey('pickle', freeze(I, a[0]))), 'HIGHEST_PROTOCOL': 5, 'DEFAULT_PROTOCOL': 4})
    if name == 'hashlib':
        def mkh(alg):
            def g(I, a, k):
                h = VObj(B['object'])
                h.attrs['digest'] = VBuiltin('digest', lambda I, a2, k2: VKey(alg, tuple(h.attrs['_d'].items)))
                h.attrs['hexdigest'] = h.attrs['digest']
                h.attrs['update'] = VBuiltin('update', lambda I, a2, k2: h.attrs['_d'].items.append(hashable_bytes(a2[0])))
                h.attrs['_d'] = VList([hashable_bytes(x) for x in a[:1]])
                return h
            return f(alg, g)
        return M({n: mkh(n) for n in ('sha256', 'md5', 'sha1', 'sha512', 'blake2b')})
    if name == 'types':
        return M({'MethodType': f('MethodType', lambda I, a, k: VBound(a[0], a[1])), 'TracebackType': Noop('TracebackType'),
                  'GeneratorType': B['generator'], 'FunctionType': B['function'], 'SimpleNamespace': f('ns', lambda I, a, k: VObj(B['object'], dict(k)))})
    if name == 'operator':
        def ig(I, a, k):
            return VBuiltin('itemgetter', lambda I, a2, k2: I.getitem(a2[0], a[0]) if len(a) == 1 else tuple(I.getitem(a2[0], x) for x in a))

        def ag(I, a, k):
            def g(o):
                r = []
                for x in a:
                    v = o
                    for part in x.split('.'):
                        v = I.getattr(v, part)
                    r.append(v)
                return r[0] if len(r) == 1 else tuple(r)
            return VBuiltin('attrgetter', lambda I, a2, k2: g(a2[0]))

        def mc(I, a, k):
            return VBuiltin('methodcaller', lambda I, a2, k2: I.call(I.getattr(a2[0], a[0]), a[1:], k))
        ops = {}
        for n, s in (('lt', '<'), ('gt', '>'), ('le', '<='), ('ge', '>=')):
            nm = {'lt': ('__lt__', '__gt__'), 'gt': ('__gt__', '__lt__'), 'le': ('__le__', '__ge__'), 'ge': ('__ge__', '__le__')}[n]
            ops[n] = f(n, lambda I, a, k, nm=nm, s=s: I.order(a[0], a[1], nm[0], nm[1], s))
        ops['eq'] = f('eq', lambda I, a, k: I.eq(a[0], a[1]))
        ops['ne'] = f('ne', lambda I, a, k: I.compare(ast.NotEq(), a[0], a[1]))
        for n, o in (('sub', ast.Sub), ('mul', ast.Mult), ('mod', ast.Mod), ('and_', ast.BitAnd), ('or_', ast.BitOr), ('xor', ast.BitXor), ('floordiv', ast.FloorDiv)):
            ops[n] = f(n, lambda I, a, k, o=o: I.binop(o(), a[0], a[1]))
        ops['concat'] = f('concat', lambda I, a, k: I.binop(ast.Add(), a[0], a[1]))
        ops['contains'] = f('contains', lambda I, a, k: I.contains(a[0], a[1]))
        ops['getitem'] = f('getitem', lambda I, a, k: I.getitem(a[0], a[1]))
        ops['setitem'] = f('setitem', lambda I, a, k: I.setitem(a[0], a[1], a[2]))
        ops['is_'] = f('is_', lambda I, a, k: I.is_(a[0], a[1]))
        ops['is_not'] = f('is_not', lambda I, a, k: not I.is_(a[0], a[1]))
        ops['truth'] = f('truth', lambda I, a, k: I.truth(a[0]))
        ops['add'] = f('add', lambda I, a, k: I.binop(ast.Add(), a[0], a[1]))
        ops['index'] = f('index', lambda I, a, k: I.index_of(a[0], 10) if not isinstance(a[0], (int, OInt, Lin)) else a[0])
        ops['not_'] = f('not_', lambda I, a, k: not I.truth(a[0]))
        return M({'itemgetter': f('itemgetter', ig), 'attrgetter': f('attrgetter', ag), 'methodcaller': f('methodcaller', mc)} | ops)
    if name == 'urllib.parse':
        def nope(I, a, k):
            raise Imprecise('urllib')

        def parse_(I, a, k):
            if len(a) != 1 or k or not isinstance(a[0], str):
                return Opq('url', 'obj')
            import urllib.parse
            u = urllib.parse.urlparse(a[0])
            r = I.call(prelude(I).attrs['SplitResult'], [tuple(urllib.parse.urlsplit(a[0])), u.hostname])
            r.attrs['_t'], r.attrs['path'], r.attrs['params'] = tuple(u), u.path, u.params
            return r

        def split(I, a, k):
            # a total function of the standard library: evaluated on texts that are fully known
            if len(a) != 1 or k or not isinstance(a[0], str):
                return Opq('url', 'obj')
            import urllib.parse
            try:
                u = urllib.parse.urlsplit(a[0])
            except ValueError as e:
                I.raise_('ValueError', str(e))
            return I.call(prelude(I).attrs['SplitResult'], [tuple(u), u.hostname])
        def quote(nm):
            def g(I, a, k):
                import urllib.parse
                if not all(isinstance(x, str) for x in a) or k:
                    raise Imprecise(nm)
                return getattr(urllib.parse, nm)(*a)
            return f(nm, g)
        return M({'urlsplit': f('urlsplit', split), 'urlparse': f('urlparse', parse_), 'quote': quote('quote'), 'unquote': quote('unquote'), 'urljoin': quote('urljoin'), 'urlunsplit': f('urlunsplit', nope)})
    if name == 'sys':
        v = VModule('sys', {'version_info': (3, 12, 3), 'maxsize': sys.maxsize, 'platform': 'linux', 'stderr': Noop('stderr'), 'stdout': Noop('stdout'),
                            '__stderr__': Noop('stderr'), 'exc_info': f('exc_info', lambda I, a, k: (I.exc_stack[-1].cls, I.exc_stack[-1], None) if I.exc_stack else (None, None, None))})
        return v
    if name == 'ast':
        return M({n: Noop(n) for n in ('Constant', 'NameConstant', 'Str', 'Num', 'Tuple', 'List', 'Dict', 'Call')})
    if name == 'io':
        return M({'SEEK_SET': 0, 'SEEK_CUR': 1, 'SEEK_END': 2, 'StringIO': Noop('StringIO')})
    if name == 'warnings':
        return M({'warn': f('warn', lambda I, a, k: None)})
    if name == 'math':
        return M({'inf': float('inf')})
    if name == 'textwrap':
        return M({})
    if name == 'datetime':
        return datetime_module(I)
    if name in I.hooks.get('modules', {}):
        return I.hooks['modules'][name](I)
    from . import world
    return world.module(I, name)


class VFuncProxy(VBuiltin):
    def __init__(self, name, fn, wrapped):
        VBuiltin.__init__(self, name, fn)


def freeze_key(a, k):
    return tuple(a) + tuple(sorted(k.items()))


_pop_marker = Opq('marker', 'obj')


def hashable_bytes(v):
    if isinstance(v, ABytes):
        return v.s
    return v


def esc(I, s):
    if isinstance(s, str):
        return re.escape(s)
    if not is_str(s):
        raise Imprecise('escape')
    h = I.hooks.get('escape')
    if h:
        return h(I, s)
    return derived('escape', s, re.escape)


def total_ordering(I, a, k):
    c = a[0]
    def mkop(n, expr):
        c.attrs.setdefault(n, VBuiltin(n, expr))
    if '__lt__' in c.attrs:
        lt = lambda I, x, y: I.call(I.bind_attr(c.lookup('__lt__'), x, x.cls), [y])
        NI = I.builtins['NotImplemented']
        def wrap(fn):
            def g(I, a, k):
                r = lt(I, a[0], a[1])
                return r if r is NI else fn(I, a[0], a[1], I.truth(r))
            return g
        mkop('__gt__', wrap(lambda I, x, y, r: not r and not I.eq(x, y)))
        mkop('__le__', wrap(lambda I, x, y, r: r or I.eq(x, y)))
        mkop('__ge__', wrap(lambda I, x, y, r: not r))
        return c
    raise Imprecise('total_ordering')


def make_dc(I, c, opts):
    fields = []
    for k in reversed(c.mro):
        for n in k.attrs.get('__fields__', []) or []:
            if n not in [x[0] for x in fields]:
                fields.append((n, k.attrs.get(n, _MISSING)))

    def init(I, a, k):
        o = a[0]
        args = a[1:]
        kw = dict(k)
        i = -1
        for n, d in fields:
            skip = isinstance(d, tuple) and d and d[0] == '__field__' and not I.truth(d[3])
            i += not skip
            if not skip and i < len(args):
                v = args[i]
            elif not skip and n in kw:
                v = kw.pop(n)
            elif isinstance(d, tuple) and d and d[0] == '__field__':
                if d[2] is not _MISSING:
                    v = I.call(d[2], [])
                elif d[1] is not _MISSING:
                    v = d[1]
                else:
                    I.raise_('TypeError', 'missing ' + n)
            elif d is not _MISSING:
                v = d
            else:
                I.raise_('TypeError', 'missing ' + n)
            o.attrs[n] = v
        if kw or len(args) > i + 1:
            I.raise_('TypeError', 'unexpected')
        pi = c.lookup('__post_init__')
        if pi is not None:
            I.call(I.bind_attr(pi, o, c), [])
    c.attrs.setdefault('__init__', VBuiltin('__init__', init))

    def eq(I, a, k):
        if not isinstance(a[1], VObj) or a[1].cls is not a[0].cls:
            return I.builtins['NotImplemented']
        return all(I.eq(a[0].attrs[n], a[1].attrs[n]) for n, d in fields if not (isinstance(d, tuple) and d and d[0] == '__field__' and not I.truth(d[4])))
    if opts.get('eq', True):
        c.attrs.setdefault('__eq__', VBuiltin('__eq__', eq))
    if opts.get('frozen'):
        c.attrs.setdefault('__hash__', VBuiltin('__hash__', lambda I, a, k: hash_(I, tuple(a[0].attrs[n] for n, _ in fields))))

        def frozen(I, a, k):
            I.raise_('AttributeError', 'cannot assign to field')
        inner = c.attrs['__init__']
        c.attrs.setdefault('__setattr__', VBuiltin('__setattr__', frozen))
    if opts.get('order'):
        for nm, rf, s in (('__lt__', '__gt__', '<'), ('__le__', '__ge__', '<='), ('__gt__', '__lt__', '>'), ('__ge__', '__le__', '>=')):
            def cmp(I, a, k, nm=nm, rf=rf, s=s):
                if not isinstance(a[1], VObj) or a[1].cls is not a[0].cls:
                    return I.builtins['NotImplemented']
                return I.order(tuple(a[0].attrs[n] for n, _ in fields), tuple(a[1].attrs[n] for n, _ in fields), nm, rf, s)
            c.attrs.setdefault(nm, VBuiltin(nm, cmp))
    c.attrs.setdefault('__match_args__', tuple(n for n, _ in fields))
    for n, d in fields:
        if isinstance(c.attrs.get(n), tuple) and c.attrs[n][:1] == ('__field__',):
            if d[1] is not _MISSING:
                c.attrs[n] = d[1]
            else:
                del c.attrs[n]
    c.attrs['__dc_fields__'] = fields
    return c


def dc_replace(I, o, k):
    n = VObj(o.cls, dict(o.attrs))
    n.attrs.update(k)
    return n


def dc_value(I, v):
    if isinstance(v, VObj) and v.cls.lookup('__dc_fields__') is not None:
        return VDict([(n, dc_value(I, v.attrs[n])) for n, _ in v.cls.lookup('__dc_fields__')])
    if isinstance(v, VList):
        return VList([dc_value(I, x) for x in v.items])
    return v


def make_namedtuple(I, name, fields, defaults, attrs):
    """a class whose instances wrap a tuple"""
    base = prelude(I).attrs['NTuple']
    c = VClass(name, [base], dict(attrs), 'collections')
    c.attrs['_fields'] = tuple(fields)
    c.attrs['__match_args__'] = tuple(fields)

    def init(I, a, k):
        o, args, kw = a[0], list(a[1:]), dict(k)
        if len(args) > len(fields):
            I.raise_('TypeError', 'too many arguments')
        for n in fields[len(args):]:
            if n in kw:
                args.append(kw.pop(n))
            elif n in defaults:
                args.append(defaults[n])
            else:
                I.raise_('TypeError', 'missing ' + n)
        if kw:
            I.raise_('TypeError', 'unexpected')
        o.attrs['_t'] = tuple(args)
    c.attrs['__init__'] = VBuiltin('__init__', init)
    for i, n in enumerate(fields):
        c.attrs[n] = VProperty(VBuiltin(n, lambda I, a, k, i=i: a[0].attrs['_t'][i]))
    c.attrs['_make'] = VBuiltin('_make', lambda I, a, k: I.call(c, list(I.iterate(a[0]))))
    return c


def template_class(I):
    """string.Template with $$ and ${name} substitution"""
    if getattr(I, '_tmpl', None):
        return I._tmpl
    c = VClass('Template', [I.builtins['object']], {}, 'string')

    def init(I, a, k):
        a[0].attrs['template'] = a[1]

    def subst(I, a, k):
        o = a[0]
        d = a[1] if len(a) > 1 else VDict(list(k.items()))
        n = norm(o.attrs['template'])
        out = []
        todo = list(n)
        rest = mk(n)
        cnt = 0
        while True:
            r = find_split(rest, '$')
            if r is None:
                out.append(rest)
                break
            cnt += 1
            if cnt > 8:
                raise Bounded('template')
            out.append(mk(r[0]))
            rest = mk(r[1])
            if startswith(rest, '$'):
                out.append('$')
                rest = mk(cut(rest, 1)[1])
                continue
            if startswith(rest, '{'):
                r2 = find_split(rest, '}')
                if r2 is None:
                    I.raise_('ValueError', 'placeholder')
                key = mk(cut(mk(r2[0]), 1)[1])
                out.append(str_(I, I.getitem(d, key)))
                rest = mk(r2[1])
                continue
            if isinstance(rest, str):
                mm = re.match(r'[_a-zA-Z][_a-zA-Z0-9]*', rest)
                if mm:
                    out.append(str_(I, I.getitem(d, mm.group())))
                    rest = rest[mm.end():]
                    continue
            I.raise_('ValueError', 'placeholder')
        return mk(out)
    c.attrs['__init__'] = VBuiltin('__init__', init)
    c.attrs['substitute'] = VBuiltin('substitute', subst)

    def safe(I, a, k):
        d = a[1] if len(a) > 1 else VDict(list(k.items()))
        t = a[0].attrs['template']
        if not isinstance(t, str) or not isinstance(d, VDict) or not all(isinstance(x, str) and isinstance(y, (str, int)) for x, y in d.items):
            raise Imprecise('safe_substitute')
        return pystring.Template(t).safe_substitute(dict(d.items))
    c.attrs['safe_substitute'] = VBuiltin('safe_substitute', safe)
    I._tmpl = c
    return c
