"""Abstract string / length domain.

An abstract string is a sequence of *segments*.  A segment is either a literal
or a variable `Var` standing for an unknown run of characters, described by a
character class (bit mask over a finite representative alphabet) and a length
interval.  Tests on abstract strings partition the state (trace partitioning):
a positive outcome refines the segmentation, a negative outcome is kept as a
fact.  Nothing in here ever executes code of the analysed repository.
"""
import re
import random

EXTRA = ['\x85', '\xa0', '\u2028', '\u00e9', '\u0663', '\u00b2', '\u20ac', '\udce9']
ALPHA = [chr(i) for i in range(128)] + EXTRA
IDX = {c: i for i, c in enumerate(ALPHA)}
FULL = (1 << len(ALPHA)) - 1


def mask_of(pred):
    m = 0
    for i, c in enumerate(ALPHA):
        if pred(c):
            m |= 1 << i
    return m


def cmask(chars):
    m = 0
    for c in chars:
        i = IDX.get(c)
        if i is None:
            return None
        m |= 1 << i
    return m


WS = mask_of(str.isspace)
ALNUM = mask_of(str.isalnum)
NUMERIC = mask_of(str.isnumeric)
DIGIT = mask_of(str.isdigit)
DECIMAL = mask_of(str.isdecimal)
ALPHAB = mask_of(str.isalpha)
NL = cmask('\n')
LINEBREAKS = cmask('\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028')
NOT_NL = FULL & ~NL


def chars_of(mask):
    return [c for i, c in enumerate(ALPHA) if mask >> i & 1]


class Infeasible(Exception):
    """This partition of the abstract state is empty (or beyond the bound)."""


class Bounded(Infeasible):
    """Partition dropped because of an exploration bound."""


class Imprecise(Exception):
    """The analysis cannot follow this construct; the path is undecided."""


class Var:
    __slots__ = ('name', 'mask', 'lo', 'hi', 'bind', 'depth', 'tag')
    n = 0

    def __init__(self, name, mask=FULL, lo=0, hi=None, depth=0, tag=None):
        Var.n += 1
        self.name = name
        self.mask = mask
        self.lo = lo
        self.hi = hi
        self.bind = None
        self.depth = depth
        self.tag = tag

    def __repr__(self):
        return '<%s>' % self.name


class AStr:
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return 'S[' + ' '.join(repr(p) for p in norm(self.parts)) + ']'


def _flat(parts, out):
    for p in parts:
        if isinstance(p, str):
            if p:
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
        elif isinstance(p, AStr):
            _flat(p.parts, out)
        else:
            if p.bind is not None:
                _flat(p.bind, out)
            elif p.hi == 0 or p.mask == 0:
                if p.lo > 0:
                    raise Infeasible('empty class')
            elif p.mask & (p.mask - 1) == 0 and p.hi is not None and p.hi == p.lo:
                lit = ALPHA[p.mask.bit_length() - 1] * p.lo
                if out and isinstance(out[-1], str):
                    out[-1] += lit
                else:
                    out.append(lit)
            else:
                out.append(p)


def norm(parts):
    if isinstance(parts, str):
        return [parts] if parts else []
    if isinstance(parts, AStr):
        parts = parts.parts
    out = []
    _flat(parts, out)
    return out


def mk(parts):
    n = norm(parts)
    if not n:
        return ''
    if len(n) == 1 and isinstance(n[0], str):
        return n[0]
    return AStr(n)


def is_str(v):
    return isinstance(v, (str, AStr))


def cat(*vs):
    return mk(vs)


def key_of(v):
    """Hashable canonical form."""
    return tuple(p if isinstance(p, str) else ('v', id(p)) for p in norm(v))


# ------------------------------------------------------------------ lengths

class Lin:
    """c + sum(coef * len(var))"""
    __slots__ = ('c', 't')

    def __init__(self, c, t=None):
        self.c = c
        self.t = t or {}

    def __repr__(self):
        return 'Lin(%d%s)' % (self.c, ''.join(' %+d|%s|' % (k, v.name) for v, k in self.t.items()))


def lin_norm(x):
    """-> (c, {var: coef}) with bindings resolved."""
    if isinstance(x, bool):
        return int(x), {}
    if isinstance(x, int):
        return x, {}
    c = x.c
    t = {}
    stack = [(v, k) for v, k in x.t.items()]
    while stack:
        v, k = stack.pop()
        if v.bind is not None:
            for p in norm(v.bind):
                if isinstance(p, str):
                    c += k * len(p)
                else:
                    stack.append((p, k))
        elif v.hi is not None and v.hi == v.lo:
            c += k * v.lo
        else:
            t[v] = t.get(v, 0) + k
            if t[v] == 0:
                del t[v]
    return c, t


def mklin(c, t):
    return Lin(c, t) if t else c


def lsimp(x):
    if isinstance(x, Lin):
        return mklin(*lin_norm(x))
    return x


def ladd(a, b, kb=1):
    ca, ta = lin_norm(a)
    cb, tb = lin_norm(b)
    t = dict(ta)
    for v, k in tb.items():
        t[v] = t.get(v, 0) + kb * k
        if t[v] == 0:
            del t[v]
    return mklin(ca + kb * cb, t)


def plen(parts):
    c = 0
    t = {}
    for p in norm(parts):
        if isinstance(p, str):
            c += len(p)
        elif p.hi is not None and p.hi == p.lo:
            c += p.lo
        else:
            t[p] = t.get(p, 0) + 1
    return mklin(c, t)


def lbounds(x):
    c, t = lin_norm(x)
    lo = hi = c
    for v, k in t.items():
        if k > 0:
            lo = None if lo is None else lo + k * v.lo
            hi = None if (hi is None or v.hi is None) else hi + k * v.hi
        else:
            hi = None if hi is None else hi + k * v.lo
            lo = None if (lo is None or v.hi is None) else lo + k * v.hi
    return lo, hi


# ------------------------------------------------------------------ context

class Ctx:
    """One partition of the exploration: scripted choices + facts."""

    def __init__(self, script=None, max_depth=4):
        self.script = list(script or [])
        self.arity = []
        self.i = 0
        self.facts = []       # (descr, check(env)->bool)
        self.cheap = []       # cheap tri-valued facts: (fn)->None/True/False
        self.memo = {}
        self.trace = []
        self.where = None
        self.max_depth = max_depth
        self.roots = []
        self.events = []
        self.uid = 0
        self.notes = []
        self.allvars = []
        self.picks = []       # scenario-level choices, in order
        self.replay = None    # (picks, root strings) when confirming a witness

    def choose(self, n, label=''):
        if n == 1:
            return 0
        if n == 0:
            raise Infeasible(label)
        if self.i < len(self.script):
            c = self.script[self.i]
        else:
            c = 0
            self.script.append(0)
        if len(self.arity) <= self.i:
            self.arity.append(n)
        else:
            self.arity[self.i] = n
        self.i += 1
        self.trace.append((self.where, label, c, n))
        if len(self.trace) > 400:
            raise Bounded('too many partitions on one path')
        return c

    def pick(self, n, label=''):
        """scenario-level choice (recorded so that a witness can be replayed)"""
        if self.replay is not None:
            k = self.replay[0][len(self.picks)] if len(self.picks) < len(self.replay[0]) else 0
        else:
            k = self.choose(n, label)
        self.picks.append(k)
        return k

    def fresh(self, name, mask=FULL, lo=0, hi=None, depth=0, tag=None):
        self.uid += 1
        v = Var('%s%s' % (name, self.uid), mask, lo, hi, depth, tag)
        self.allvars.append(v)
        return v

    def fact(self, descr, check):
        self.facts.append((descr, check))

    def neg(self, tri):
        """tri() -> True if the denied predicate now definitely holds."""
        self.cheap.append(tri)

    def recheck(self):
        for tri in self.cheap:
            if tri() is True:
                raise Infeasible('contradicts an earlier outcome')


CUR = [None]


def cur():
    return CUR[0]


def set_ctx(c):
    CUR[0] = c


def fresh_str(name, mask=NOT_NL, lo=0, hi=None, tag=None):
    c = cur()
    if c.replay is not None:
        k = len(c.roots)
        c.roots.append(None)
        return c.replay[1][k] if k < len(c.replay[1]) else 'x' * lo
    v = c.fresh(name, mask, lo, hi, 0, tag)
    v.name = name
    c.roots.append(v)
    return AStr((v,))


def bind(v, parts):
    assert v.bind is None
    v.bind = tuple(parts)
    cur().recheck()


def bind_empty(v):
    if v.lo > 0:
        raise Infeasible('nonempty')
    bind(v, ())


def split_at(v, k, left_mask=None, right_mask=None):
    """Split var v into k leading characters (k concrete) and a rest."""
    c = cur()
    if v.depth + k > c.max_depth:
        raise Bounded('segment split bound')
    if v.hi is not None and v.hi < k:
        raise Infeasible('too short')
    l = c.fresh(v.name + '.', v.mask if left_mask is None else left_mask, k, k, v.depth)
    r = c.fresh(v.name + "'", v.mask if right_mask is None else right_mask, max(0, v.lo - k),
                None if v.hi is None else v.hi - k, v.depth + k)
    if l.mask == 0:
        raise Infeasible('class')
    bind(v, (l, r))
    return l, r


def split_tail(v, k, mask=None):
    c = cur()
    if v.depth + k > c.max_depth:
        raise Bounded('segment split bound')
    if v.hi is not None and v.hi < k:
        raise Infeasible('too short')
    l = c.fresh(v.name + '.', v.mask, max(0, v.lo - k), None if v.hi is None else v.hi - k, v.depth + k)
    r = c.fresh(v.name + "'", v.mask if mask is None else mask, k, k, v.depth)
    if r.mask == 0:
        raise Infeasible('class')
    bind(v, (l, r))
    return l, r


def split_any(v, lmask, rmask, llo=0, lhi=None, rlo=0):
    """Split v = l r at an arbitrary place."""
    c = cur()
    if v.depth >= c.max_depth + 6:
        raise Bounded('segment split bound')
    lmask &= v.mask
    rmask &= v.mask
    hi = v.hi
    if hi is not None:
        lhi = hi if lhi is None else min(lhi, hi)
    l = c.fresh(v.name + '.', lmask, llo, lhi, v.depth)
    r = c.fresh(v.name + "'", rmask, rlo, hi, v.depth + 1)
    for x in (l, r):
        if x.mask == 0:
            if x.lo > 0:
                raise Infeasible('class')
            x.hi = 0
        if x.hi is not None and x.hi < x.lo:
            raise Infeasible('len')
    if v.lo > 0:
        if (r.hi == 0):
            l.lo = max(l.lo, v.lo)
        elif (l.hi == 0):
            r.lo = max(r.lo, v.lo)
        else:
            ln = v.lo
            c.fact('len', lambda env, l=l, r=r, ln=ln: len(conc((l, r), env)) >= ln)
    bind(v, (l, r))
    return l, r


# ------------------------------------------------------------- concretising

def conc(parts, env):
    if isinstance(parts, str):
        return parts
    out = []
    for p in (parts.parts if isinstance(parts, AStr) else parts):
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, AStr):
            out.append(conc(p, env))
        elif p.bind is not None:
            out.append(conc(p.bind, env))
        else:
            if p not in env:
                env[p] = sample_var(p, env)
            out.append(env[p])
    return ''.join(out)


COMMON = 'ax1 '


def sample_var(v, env):
    rnd = env['rnd']
    lo = v.lo
    hi = v.hi if v.hi is not None else lo + 3
    hi = min(hi, max(lo, lo + 3))
    n = rnd.randint(lo, hi) if rnd.random() < 0.6 else (lo if lo else min(1, hi))
    cs = chars_of(v.mask)
    if not cs:
        return ''
    plain = [c for c in cs if c in 'abcx1']
    inter = [c for c in cs if c in env['chars']]
    out = []
    for _ in range(n):
        r = rnd.random()
        if plain and r < env['bias']:
            out.append(rnd.choice(plain))
        elif inter and r < 0.9:
            out.append(rnd.choice(inter))
        else:
            out.append(rnd.choice(cs))
    return ''.join(out)


def witness(ctx, differs, tries=600, seed=1):
    """Search the concretisation of the partition for an element on which
    `differs(env)` is true and all recorded facts hold."""
    rnd = random.Random(seed)
    for t in range(tries):
        env = {'rnd': rnd, 'chars': ' %{}#\\:"\'-\t', 'bias': (0.9, 0.6, 0.3)[t % 3]}
        try:
            ok = True
            for d, chk in ctx.facts:
                if not chk(env):
                    ok = False
                    break
            if ok and differs(env):
                return env
        except Infeasible:
            return None
    return None


# --------------------------------------------------------------- predicates

def truth(s):
    n = norm(s)
    if not n:
        return False
    if any(isinstance(p, str) or p.lo > 0 for p in n):
        return True
    c = cur()
    if c.choose(2, 'empty?') == 0:
        if len(n) == 1:
            n[0].lo = 1
            c.recheck()
        else:
            c.fact('nonempty', lambda env, n=tuple(n): conc(n, env) != '')
            c.neg(lambda n=tuple(n): True if not norm(n) else None)
        return True
    for p in n:
        bind_empty(p)
    return False


def head(parts):
    """Split the first character off -> (charpart, rest parts) or None if empty.
    charpart is a 1-char literal or fixed-length-1 Var."""
    n = norm(parts)
    c = cur()
    while n:
        p = n[0]
        if isinstance(p, str):
            return p[0], ([p[1:]] if p[1:] else []) + n[1:]
        if p.lo == 1 and p.hi == 1:
            return p, n[1:]
        if p.lo == 0:
            if c.choose(2, 'segment empty?') == 1:
                bind_empty(p)
                n = n[1:]
                continue
            p.lo = 1
        l, r = split_at(p, 1)
        return l, norm([r]) + n[1:]
    return None


def last(parts):
    n = norm(parts)
    c = cur()
    while n:
        p = n[-1]
        if isinstance(p, str):
            return n[:-1] + ([p[:-1]] if p[:-1] else []), p[-1]
        if p.lo == 1 and p.hi == 1:
            return n[:-1], p
        if p.lo == 0:
            if c.choose(2, 'segment empty?') == 1:
                bind_empty(p)
                n = n[:-1]
                continue
            p.lo = 1
        l, r = split_tail(p, 1)
        return n[:-1] + norm([l]), r
    return None


def char_in(ch, mask):
    """is the char part in mask? partitions."""
    if isinstance(ch, str):
        i = IDX.get(ch)
        if i is None:
            raise Imprecise('char outside alphabet')
        return bool(mask >> i & 1)
    if isinstance(ch, AStr):
        n = norm(ch)
        if len(n) != 1:
            raise Imprecise('char')
        ch = n[0]
        if isinstance(ch, str):
            return char_in(ch, mask)
    if ch.mask & mask == 0:
        return False
    if ch.mask & ~mask == 0:
        return True
    if cur().choose(2, 'char class?') == 0:
        ch.mask &= mask
        cur().recheck()
        return True
    ch.mask &= ~mask
    cur().recheck()
    return False


def tri_startswith(parts, lit):
    n = norm(parts)
    i = 0
    for p in n:
        if i == len(lit):
            return True
        if isinstance(p, str):
            k = min(len(p), len(lit) - i)
            if p[:k] != lit[i:i + k]:
                return False
            i += k
        else:
            # possible?
            m = IDX.get(lit[i])
            if p.lo > 0 and m is not None and not (p.mask >> m & 1):
                return False
            if p.lo == 1 and p.hi == 1:
                if m is not None and not p.mask & ~(1 << m):
                    i += 1
                    continue
            return None
    return i == len(lit)


def tri_endswith(parts, lit):
    n = norm(parts)
    i = len(lit)
    for p in reversed(n):
        if i == 0:
            return True
        if isinstance(p, str):
            k = min(len(p), i)
            if p[len(p) - k:] != lit[i - k:i]:
                return False
            i -= k
        else:
            m = IDX.get(lit[i - 1])
            if p.lo > 0 and m is not None and not (p.mask >> m & 1):
                return False
            return None
    return i == 0


def force_prefix(parts, lit):
    """Refine so that parts starts with lit; return the rest parts."""
    n = norm(parts)
    for ch in lit:
        h = head(n)
        if h is None:
            raise Infeasible('too short')
        c, n = h
        if isinstance(c, str):
            if c != ch:
                raise Infeasible('prefix')
        else:
            m = cmask(ch)
            if m is None or not c.mask & m:
                raise Infeasible('prefix')
            c.mask = m
            cur().recheck()
    return n


def force_suffix(parts, lit):
    n = norm(parts)
    for ch in reversed(lit):
        h = last(n)
        if h is None:
            raise Infeasible('too short')
        n, c = h
        if isinstance(c, str):
            if c != ch:
                raise Infeasible('suffix')
        else:
            m = cmask(ch)
            if m is None or not c.mask & m:
                raise Infeasible('suffix')
            c.mask = m
            cur().recheck()
    return n


def startswith(s, pre):
    if isinstance(s, str) and isinstance(pre, str):
        return s.startswith(pre)
    if not isinstance(pre, str):
        a, b = norm(s), norm(pre)
        if len(b) <= len(a) and a[:len(b)] == b:
            return True
        if b and isinstance(b[0], str) and tri_startswith(a, b[0]) is False:
            return False
        return opaque_pred('startswith', s, pre, lambda x, y: x.startswith(y))
    t = tri_startswith(s, pre)
    if t is not None:
        return t
    c = cur()
    k = ('sw', key_of(s), pre)
    if k in c.memo:
        return c.memo[k]
    if c.choose(2, 'startswith %r?' % pre) == 0:
        force_prefix(s, pre)
        return True
    c.memo[k] = False
    c.fact('not startswith', lambda env: not conc(s, env).startswith(pre))
    c.neg(lambda: tri_startswith(s, pre))
    return False


def endswith(s, suf):
    if isinstance(s, str) and isinstance(suf, str):
        return s.endswith(suf)
    if not isinstance(suf, str):
        a, b = norm(s), norm(suf)
        if len(b) <= len(a) and (not b or a[-len(b):] == b):
            return True
        return opaque_pred('endswith', s, suf, lambda x, y: x.endswith(y))
    t = tri_endswith(s, suf)
    if t is not None:
        return t
    c = cur()
    k = ('ew', key_of(s), suf)
    if k in c.memo:
        return c.memo[k]
    if c.choose(2, 'endswith %r?' % suf) == 0:
        force_suffix(s, suf)
        return True
    c.memo[k] = False
    c.fact('not endswith', lambda env: not conc(s, env).endswith(suf))
    c.neg(lambda: tri_endswith(s, suf))
    return False


def opaque_pred(name, a, b, fn):
    c = cur()
    k = (name, key_of(a), key_of(b))
    if k in c.memo:
        return c.memo[k]
    r = c.choose(2, name) == 0
    c.memo[k] = r
    c.fact(name, lambda env: bool(fn(conc(a, env), conc(b, env))) is r)
    return r


def opaque_test(name, a, fn):
    """opaque unary predicate fn over a string"""
    if isinstance(a, str):
        return fn(a)
    c = cur()
    k = (name, key_of(a))
    if k in c.memo:
        return c.memo[k]
    r = c.choose(2, name) == 0
    c.memo[k] = r
    c.fact(name, lambda env: bool(fn(conc(a, env))) is r)
    return r


def tri_contains(parts, lit):
    n = norm(parts)
    if lit == '':
        return True
    for p in n:
        if isinstance(p, str) and lit in p:
            return True
    # impossible if some char of lit is in nobody's class
    for ch in lit:
        m = IDX.get(ch)
        if m is None:
            continue
        if not any((ch in p) if isinstance(p, str) else (p.mask >> m & 1) for p in n):
            return False
    if len(lit) == 1:
        m = 1 << IDX[lit] if lit in IDX else 0
        for p in n:
            if not isinstance(p, str) and p.lo > 0 and p.mask == m:
                return True
    return None


def contains(s, lit):
    if isinstance(s, str) and isinstance(lit, str):
        return lit in s
    if not isinstance(lit, str):
        a, b = norm(s), norm(lit)
        for i in range(len(a) - len(b) + 1):
            if a[i:i + len(b)] == b:
                return True
        return opaque_pred('contains', s, lit, lambda x, y: y in x)
    t = tri_contains(s, lit)
    if t is not None:
        return t
    c = cur()
    k = ('in', key_of(s), lit)
    if k in c.memo:
        return c.memo[k]
    r = find_split(s, lit)
    return r is not None


def find_split(s, lit, from_right=False):
    """Partition on the first (last) occurrence of literal `lit` in s.
    Returns (pre_parts, post_parts) or None when absent."""
    n = norm(s)
    c = cur()
    if len(lit) == 1 and lit in IDX:
        m = 1 << IDX[lit]
        order = range(len(n)) if not from_right else range(len(n) - 1, -1, -1)
        for i in order:
            p = n[i]
            if isinstance(p, str):
                j = p.rfind(lit) if from_right else p.find(lit)
                if j >= 0:
                    return (norm(n[:i] + [p[:j]]), norm([p[j + 1:]] + n[i + 1:]))
            elif p.mask & m:
                if c.choose(2, 'contains %r?' % lit) == 1:
                    p.mask &= ~m
                    if p.mask == 0:
                        if p.lo > 0:
                            raise Infeasible('class')
                        p.hi = 0
                    c.recheck()
                    continue
                if p.depth > c.max_depth:
                    raise Bounded('split bound')
                hi = None if p.hi is None else p.hi - 1
                if p.hi is not None and p.hi < 1:
                    raise Infeasible('len')
                if from_right:
                    l = c.fresh(p.name + '.', p.mask, 0, hi, p.depth + 1)
                    r = c.fresh(p.name + "'", p.mask & ~m, 0, hi, p.depth)
                else:
                    l = c.fresh(p.name + '.', p.mask & ~m, 0, hi, p.depth)
                    r = c.fresh(p.name + "'", p.mask, 0, hi, p.depth + 1)
                for x in (l, r):
                    if x.mask == 0:
                        x.hi = 0
                if p.lo > 1:
                    lo = p.lo
                    c.fact('len', lambda env, l=l, r=r, lo=lo: len(conc((l, r), env)) + 1 >= lo)
                if p.hi is not None:
                    ph = p.hi
                    c.fact('len', lambda env, l=l, r=r, ph=ph: len(conc((l, r), env)) + 1 <= ph)
                bind(p, (l, lit, r))
                return norm(n[:i] + [l]), norm([r] + n[i + 1:])
        return None
    # multi-character needle
    t = tri_contains(n, lit)
    if t is False:
        return None
    for i, p in enumerate(n):
        if isinstance(p, str) and lit in p and not from_right:
            # occurrence inside an earlier variable is possible, but rare
            if all(isinstance(q, str) for q in n[:i]):
                j = ''.join(n[:i]).find(lit)
                j = p.find(lit)
                return norm(n[:i] + [p[:j]]), norm([p[j + len(lit):]] + n[i + 1:])
    cands = [i for i, p in enumerate(n) if not isinstance(p, str)
             and all(ch in IDX and p.mask >> IDX[ch] & 1 for ch in lit)
             and (p.hi is None or p.hi >= len(lit))]
    definite = t is True
    opts = [('var', i) for i in cands]
    if definite:
        for i, p in enumerate(n):
            if isinstance(p, str) and lit in p:
                opts.append(('lit', i))
    else:
        opts.append(('no', None))
    o = opts[c.choose(len(opts), 'contains %r?' % lit)]
    sn = tuple(n)
    if o[0] == 'no':
        c.memo[('in', key_of(s), lit)] = False
        c.fact('not contains', lambda env: lit not in conc(sn, env))
        c.neg(lambda: tri_contains(sn, lit))
        return None
    if o[0] == 'lit':
        i = o[1]
        p = n[i]
        j = p.rfind(lit) if from_right else p.find(lit)
        pre, post = norm(n[:i] + [p[:j]]), norm([p[j + len(lit):]] + n[i + 1:])
    else:
        i = o[1]
        p = n[i]
        if p.depth > c.max_depth:
            raise Bounded('split bound')
        hi = None if p.hi is None else p.hi - len(lit)
        l = c.fresh(p.name + '.', p.mask, 0, hi, p.depth)
        r = c.fresh(p.name + "'", p.mask, 0, hi, p.depth + 1)
        bind(p, (l, lit, r))
        pre, post = norm(n[:i] + [l]), norm([r] + n[i + 1:])
    pp = tuple(pre)
    if from_right:
        c.fact('rfind', lambda env: conc(sn, env).rfind(lit) == len(conc(pp, env)))
    else:
        c.fact('find', lambda env: conc(sn, env).find(lit) == len(conc(pp, env)))
    return pre, post


def tri_eq(a, b):
    """definite equality of two strings, or None"""
    x, y = norm(a), norm(b)
    # strip common prefix / suffix
    x, y = _strip_common(x, y)
    if not x and not y:
        return True
    lo = lambda n: sum(len(p) if isinstance(p, str) else p.lo for p in n)
    def hi(n):
        t = 0
        for p in n:
            if isinstance(p, str):
                t += len(p)
            elif p.hi is None:
                return None
            else:
                t += p.hi
        return t
    if hi(x) is not None and lo(y) > hi(x):
        return False
    if hi(y) is not None and lo(x) > hi(y):
        return False
    if x and y:
        for f in (0, -1):
            p, q = x[f], y[f]
            pm, ps = _edge(p, f)
            qm, qs = _edge(q, f)
            if ps and qs and not pm & qm:
                return False
    # a char that one side must have and the other cannot
    for u, w in ((x, y), (y, x)):
        um = 0
        for p in u:
            um |= (cmask(p) or FULL) if isinstance(p, str) else p.mask
        for p in w:
            if isinstance(p, str):
                m = cmask(p)
                if m is not None and m & ~um:
                    return False
    return None


def _edge(p, f):
    if isinstance(p, str):
        m = cmask(p[f])
        return (FULL if m is None else m), True
    return p.mask, p.lo > 0


def _strip_common(x, y):
    x, y = list(x), list(y)
    while x and y:
        p, q = x[0], y[0]
        if isinstance(p, str) and isinstance(q, str):
            k = 0
            while k < len(p) and k < len(q) and p[k] == q[k]:
                k += 1
            if k == 0:
                break
            x[0], y[0] = p[k:], q[k:]
            if not x[0]:
                x.pop(0)
            if not y[0]:
                y.pop(0)
            if k < len(p) and k < len(q):
                break
        elif p is q:
            x.pop(0)
            y.pop(0)
        else:
            break
    while x and y:
        p, q = x[-1], y[-1]
        if isinstance(p, str) and isinstance(q, str):
            k = 0
            while k < len(p) and k < len(q) and p[-1 - k] == q[-1 - k]:
                k += 1
            if k == 0:
                break
            x[-1], y[-1] = p[:len(p) - k], q[:len(q) - k]
            if not x[-1]:
                x.pop()
            if not y[-1]:
                y.pop()
            if k < len(p) and k < len(q):
                break
        elif p is q:
            x.pop()
            y.pop()
        else:
            break
    return x, y


def streq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    t = tri_eq(a, b)
    if t is not None:
        return t
    c = cur()
    ka, kb = key_of(a), key_of(b)
    for k in (('eq', ka, kb), ('eq', kb, ka)):
        if k in c.memo:
            return c.memo[k]
    if c.choose(2, 'equal?') == 0:
        unify(a, b)
        return True
    c.memo[('eq', ka, kb)] = False
    c.fact('!=', lambda env: conc(a, env) != conc(b, env))
    c.neg(lambda: tri_eq(a, b))
    return False


def unify(a, b):
    x, y = _strip_common(norm(a), norm(b))
    c = cur()
    if not x and not y:
        return
    if not x or not y:
        for p in x + y:
            if isinstance(p, str):
                raise Infeasible('eq')
            bind_empty(p)
        return
    if len(y) == 1 and not isinstance(y[0], str):
        x, y = y, x
    if len(x) == 1 and not isinstance(x[0], str) and x[0] not in y:
        v = x[0]
        # push v's constraints into y
        if all(isinstance(p, str) for p in y):
            lit = ''.join(y)
            if len(lit) < v.lo or (v.hi is not None and len(lit) > v.hi):
                raise Infeasible('len')
            for ch in lit:
                if ch in IDX and not v.mask >> IDX[ch] & 1:
                    raise Infeasible('class')
            bind(v, (lit,))
            return
        for p in y:
            if isinstance(p, str):
                m = cmask(p)
                if m is not None and m & ~v.mask:
                    raise Infeasible('class')
            else:
                p.mask &= v.mask
                if p.mask == 0:
                    if p.lo > 0:
                        raise Infeasible('class')
                    p.hi = 0
        if len(y) == 1:
            p = y[0]
            p.lo = max(p.lo, v.lo)
            if v.hi is not None:
                p.hi = v.hi if p.hi is None else min(p.hi, v.hi)
            if p.hi is not None and p.hi < p.lo:
                raise Infeasible('len')
        else:
            lo, hi = v.lo, v.hi
            yy = tuple(y)
            c.fact('len', lambda env: len(conc(yy, env)) >= lo and (hi is None or len(conc(yy, env)) <= hi))
        bind(v, tuple(y))
        return
    if all(isinstance(p, str) for p in y) or all(isinstance(p, str) for p in x):
        # literal against several segments: consume char by char
        lit, seg = (''.join(y), x) if all(isinstance(p, str) for p in y) else (''.join(x), y)
        rest = force_prefix(seg, lit)
        for p in norm(rest):
            if isinstance(p, str):
                raise Infeasible('eq')
            bind_empty(p)
        return
    c.fact('==', lambda env: conc(a, env) == conc(b, env))


# --------------------------------------------------------------- transforms

def charwise(s, fn, name):
    """apply a per-character transform; segments whose image is a single
    character become literals, others keyed derived variables"""
    if isinstance(s, str):
        return ''.join(fn(ch) for ch in s)
    out = []
    c = cur()
    for p in norm(s):
        if isinstance(p, str):
            out.append(''.join(fn(ch) for ch in p))
            continue
        img = set(fn(ch) for ch in chars_of(p.mask))
        if all(fn(ch) == ch for ch in chars_of(p.mask)):
            out.append(p)
        elif len(img) == 1 and p.hi is not None and p.hi == p.lo:
            out.append(img.pop() * p.lo)
        else:
            k = ('tr', name, id(p))
            if k not in c.memo:
                m = 0
                for x in img:
                    for ch in x:
                        m |= 1 << IDX[ch] if ch in IDX else 0
                d = c.fresh(name + '(' + p.name + ')', m, p.lo, p.hi, p.depth)
                c.memo[k] = (d, p)
                c.fact(name, lambda env, d=d, p=p: conc((d,), env) == ''.join(fn(ch) for ch in conc((p,), env)) or _fix(d, env, ''.join(fn(ch) for ch in conc((p,), env))))
            out.append(c.memo[k][0])
    return mk(out)


def _fix(d, env, val):
    """derived variable: force its sampled value when still free"""
    if d.bind is None:
        env[d] = val
        return True
    return False


def derived(name, s, fn, mask=FULL, lo=0, hi=None, extra=()):
    """opaque function of strings: result is a fresh var keyed by the args"""
    c = cur()
    k = ('fn', name, key_of(s)) + tuple(extra)
    if k not in c.memo:
        d = c.fresh(name, mask, lo, hi)
        c.memo[k] = d
        if fn is not None:
            def chk(env, d=d):
                val = fn(conc(s, env))
                if d.bind is None and d not in env:
                    env[d] = val
                return conc((d,), env) == val
            c.fact(name, chk)
    return mk((c.memo[k],))


def tolower(ch):
    l = ch.lower()
    return l if len(l) == 1 else ch


def toupper(ch):
    u = ch.upper()
    return u if len(u) == 1 else ch


def lower(s):
    return charwise(s, tolower, 'lower')


def upper(s):
    return charwise(s, toupper, 'upper')


def capitalize(s):
    if isinstance(s, str):
        return s.capitalize()
    n = norm(s)
    p = n[0]
    if not isinstance(p, str) and not (p.lo == 1 and p.hi == 1):
        h = head(n)
        if h is None:
            return ''
        ch, rest = h
    elif isinstance(p, str):
        ch, rest = p[0], [p[1:]] + n[1:]
    else:
        ch, rest = p, n[1:]
    return cat(charwise(mk((ch,)), toupper, 'upper'), charwise(mk(rest), tolower, 'lower'))


def strip(s, mask=WS, left=True, right=True, chars=None):
    if chars is not None:
        mask = cmask(chars)
        if mask is None:
            raise Imprecise('strip')
    n = norm(s)
    if left:
        _, n = strip_left(n, mask)
    if right:
        n, _ = strip_right(n, mask)
    return mk(n)


def strip_left(n, mask):
    """-> (stripped parts, rest parts); rest is empty or starts outside mask"""
    n = norm(n)
    c = cur()
    out = []
    while n:
        p = n[0]
        if isinstance(p, str):
            k = 0
            while k < len(p) and p[k] in IDX and mask >> IDX[p[k]] & 1:
                k += 1
            if k:
                out.append(p[:k])
            if k < len(p):
                n = [p[k:]] + n[1:]
                return out, n
            n = n[1:]
            continue
        if not p.mask & mask:
            if p.lo > 0:
                return out, n
            if c.choose(2, 'segment empty?') == 1:
                bind_empty(p)
                n = n[1:]
                continue
            p.lo = 1
            return out, n
        if not p.mask & ~mask:
            out.append(p)
            n = n[1:]
            continue
        # all-mask | mask* x rest
        if p.hi == 1:
            if p.lo == 0 and c.choose(2, 'segment empty?') == 1:
                bind_empty(p)
                n = n[1:]
                continue
            p.lo = 1
            if char_in(p, mask):
                out.append(p)
                n = n[1:]
                continue
            return out, n
        if c.choose(2, 'all stripped?') == 1:
            p.mask &= mask
            c.recheck()
            out.append(p)
            n = n[1:]
            continue
        if p.depth > c.max_depth:
            raise Bounded('split bound')
        l = c.fresh(p.name + '.', p.mask & mask, 0, None if p.hi is None else p.hi - 1, p.depth)
        x = c.fresh(p.name + '!', p.mask & ~mask, 1, 1, p.depth)
        r = c.fresh(p.name + "'", p.mask, 0, None if p.hi is None else p.hi - 1, p.depth + 1)
        if p.lo > 1:
            lo = p.lo
            c.fact('len', lambda env, q=(l, x, r), lo=lo: len(conc(q, env)) >= lo)
        bind(p, (l, x, r))
        return norm(out + [l]), norm([x, r] + n[1:])
    return out, []


def strip_right(n, mask):
    n = norm(n)
    c = cur()
    out = []
    while n:
        p = n[-1]
        if isinstance(p, str):
            k = len(p)
            while k > 0 and p[k - 1] in IDX and mask >> IDX[p[k - 1]] & 1:
                k -= 1
            if k < len(p):
                out.insert(0, p[k:])
            if k > 0:
                return n[:-1] + [p[:k]], out
            n = n[:-1]
            continue
        if not p.mask & mask:
            if p.lo > 0:
                return n, out
            if c.choose(2, 'segment empty?') == 1:
                bind_empty(p)
                n = n[:-1]
                continue
            p.lo = 1
            return n, out
        if not p.mask & ~mask:
            out.insert(0, p)
            n = n[:-1]
            continue
        if p.hi == 1:
            if p.lo == 0 and c.choose(2, 'segment empty?') == 1:
                bind_empty(p)
                n = n[:-1]
                continue
            p.lo = 1
            if char_in(p, mask):
                out.insert(0, p)
                n = n[:-1]
                continue
            return n, out
        if c.choose(2, 'all stripped?') == 1:
            p.mask &= mask
            c.recheck()
            out.insert(0, p)
            n = n[:-1]
            continue
        if p.depth > c.max_depth:
            raise Bounded('split bound')
        l = c.fresh(p.name + '.', p.mask, 0, None if p.hi is None else p.hi - 1, p.depth + 1)
        x = c.fresh(p.name + '!', p.mask & ~mask, 1, 1, p.depth)
        r = c.fresh(p.name + "'", p.mask & mask, 0, None if p.hi is None else p.hi - 1, p.depth)
        bind(p, (l, x, r))
        return norm(n[:-1] + [l, x]), norm([r] + out)
    return [], out


def all_in(s, mask, name):
    """str.isspace() & friends"""
    n = norm(s)
    if not n:
        return False
    if not truth(s):
        return False
    n = norm(s)
    for p in n:
        if isinstance(p, str):
            if any(ch not in IDX or not mask >> IDX[ch] & 1 for ch in p):
                return False
    vs = [p for p in n if not isinstance(p, str)]
    if all(not p.mask & ~mask for p in vs):
        return True
    if any(p.lo > 0 and not p.mask & mask for p in vs):
        return False
    c = cur()
    k = (name, key_of(s))
    if k in c.memo:
        return c.memo[k]
    if c.choose(2, name) == 0:
        for p in vs:
            p.mask &= mask
            if p.mask == 0:
                if p.lo:
                    raise Infeasible('class')
                p.hi = 0
        c.recheck()
        return True
    if len(vs) == 1 and vs[0].hi == 1:
        vs[0].mask &= ~mask
        vs[0].lo = 1
        c.recheck()
        return False
    c.memo[k] = False
    ms = mask
    sn = tuple(n)
    c.fact('not ' + name, lambda env: not all(ch in IDX and ms >> IDX[ch] & 1 for ch in conc(sn, env)) or not conc(sn, env))
    c.neg(lambda: True if norm(sn) and all((not q.mask & ~ms) if not isinstance(q, str) else all(ch in IDX and ms >> IDX[ch] & 1 for ch in q) for q in norm(sn)) else None)
    return False


# ----------------------------------------------------- positions and slices

def lcmp_lt(a, b):
    """a < b for ints / Lin"""
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    d = ladd(b, a, -1)          # b - a > 0 ?
    return lpos(d)


def lpos(d):
    """d > 0 ?"""
    if isinstance(d, int):
        return d > 0
    lo, hi = lbounds(d)
    if lo is not None and lo > 0:
        return True
    if hi is not None and hi <= 0:
        return False
    c = cur()
    cc, t = lin_norm(d)
    if len(t) == 1:
        (v, k), = t.items()
        if k in (1, -1):
            if c.choose(2, 'length test') == 0:
                if k == 1:      # cc + len > 0
                    v.lo = max(v.lo, 1 - cc)
                else:           # len < cc
                    v.hi = cc - 1 if v.hi is None else min(v.hi, cc - 1)
                if v.hi is not None and v.hi < v.lo:
                    raise Infeasible('len')
                c.recheck()
                return True
            if k == 1:
                v.hi = -cc if v.hi is None else min(v.hi, -cc)
            else:
                v.lo = max(v.lo, cc)
            if v.hi is not None and v.hi < max(0, v.lo):
                raise Infeasible('len')
            c.recheck()
            return False
    r = c.choose(2, 'length test') == 0
    c.fact('len', lambda env: (lval(d, env) > 0) is r)
    return r


def lval(x, env):
    if isinstance(x, int):
        return x
    return x.c + sum(k * len(conc((v,), env)) for v, k in x.t.items())


def lzero(d):
    """d == 0 ?"""
    d = lsimp(d)
    if isinstance(d, int):
        return d == 0
    lo, hi = lbounds(d)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    c = cur()
    cc, t = lin_norm(d)
    if len(t) == 1:
        (v, k), = t.items()
        if k in (1, -1):
            n = -cc * k
            if c.choose(2, 'length equal') == 0:
                if n < v.lo or (v.hi is not None and n > v.hi):
                    raise Infeasible('len')
                v.lo = v.hi = n
                c.recheck()
                return True
            if v.lo == n:
                v.lo = n + 1
                c.recheck()
            c.fact('len', lambda env: len(conc((v,), env)) != n)
            return False
    r = c.choose(2, 'length equal') == 0
    c.fact('len', lambda env: (lval(d, env) == 0) is r)
    return r


def cut(parts, pos):
    """cut normalised parts at position pos (int or Lin, >= 0) -> (left, right);
    positions beyond the end clamp like python slices."""
    n = norm(parts)
    left = []
    rem = lsimp(pos)
    c = cur()
    while n:
        rem = lsimp(rem)
        n = norm(n)
        if not n:
            break
        if isinstance(rem, int):
            if rem <= 0:
                if rem < 0:
                    raise Imprecise('negative cut')
                return left, n
            p = n[0]
            if isinstance(p, str):
                if rem < len(p):
                    return left + [p[:rem]], [p[rem:]] + n[1:]
                left.append(p)
                rem -= len(p)
                n = n[1:]
                continue
            if p.hi is not None and p.hi == p.lo:
                if rem >= p.lo:
                    left.append(p)
                    rem -= p.lo
                    n = n[1:]
                    continue
            if p.lo < rem:
                # is the segment at least rem long?
                if lpos(ladd(Lin(0, {p: 1}), rem - 1, -1)):
                    continue
                # shorter: enumerate
                k = p.lo + c.choose(min(rem, p.hi + 1 if p.hi is not None else rem) - p.lo, 'segment length')
                p.lo = p.hi = k
                c.recheck()
                continue
            if p.hi is not None and p.hi == rem and p.lo == rem:
                left.append(p)
                n = n[1:]
                rem = 0
                continue
            l, r = split_at(p, rem)
            left.append(l)
            return norm(left), norm([r] + n[1:])
        p = n[0]
        if isinstance(p, str):
            lo, hi = lbounds(rem)
            if lo is not None and lo >= len(p):
                left.append(p)
                rem = ladd(rem, len(p), -1)
                n = n[1:]
                continue
            # rem might be smaller than the literal
            if lpos(ladd(rem, len(p) - 1, -1)):
                left.append(p)
                rem = ladd(rem, len(p), -1)
                n = n[1:]
                continue
            raise Imprecise('cut inside literal at symbolic position')
        cc, t = lin_norm(rem)
        if t.get(p, 0) >= 1:
            left.append(p)
            rem = ladd(rem, Lin(0, {p: 1}), -1)
            lo, hi = lbounds(rem)
            n = n[1:]
            if lo is not None and lo < 0 and isinstance(lsimp(rem), int):
                # cut before the end of p
                k = -lsimp(rem)
                q = left.pop()
                if q.hi is not None and q.hi == q.lo and q.lo >= k:
                    l, r = split_at(q, q.lo - k) if q.lo > k else (None, q)
                    return norm(left + ([l] if l else [])), norm([r] + n)
                if not lpos(ladd(Lin(0, {q: 1}), k - 1, -1)):
                    raise Imprecise('cut before start')
                l, r = split_tail(q, k)
                return norm(left + [l]), norm([r] + n)
            continue
        # fixed-size segment or unknown
        if p.hi is not None and p.hi == p.lo:
            if lpos(ladd(rem, p.lo - 1, -1)):
                left.append(p)
                rem = ladd(rem, p.lo, -1)
                n = n[1:]
                continue
        raise Imprecise('symbolic cut')
    return left, []


def abspos(s, i, clamp=True):
    """python index -> nonnegative position (int/Lin)"""
    if isinstance(i, int):
        if i >= 0:
            return i
        L = plen(s)
        p = ladd(L, i)
        if isinstance(p, int):
            return max(p, 0) if clamp else p
        if lpos(ladd(p, 1)):
            return p
        if clamp:
            return 0
        return -1
    return i


def slice_str(s, a, b):
    if isinstance(s, str) and (a is None or isinstance(a, int)) and (b is None or isinstance(b, int)):
        return s[a:b]
    a = 0 if a is None else abspos(s, a)
    if b is not None:
        b = abspos(s, b)
        if isinstance(a, Lin) or isinstance(b, Lin):
            d = ladd(b, a, -1)
            if isinstance(d, int) and d <= 0:
                return ''
            if not isinstance(d, int):
                lo, hi = lbounds(d)
                if not (lo is not None and lo >= 0) and not lpos(ladd(d, 1)):
                    return ''
        elif b <= a:
            return ''
        left, _ = cut(s, b)
        s = left
    _, right = cut(s, a)
    return mk(right)


def index_char(s, i):
    """s[i] -> 1-char string, or None for IndexError"""
    if isinstance(s, str) and isinstance(i, int):
        return s[i] if -len(s) <= i < len(s) else None
    if isinstance(i, int) and i < 0:
        n = norm(s)
        for _ in range(-i):
            h = last(n)
            if h is None:
                return None
            n, ch = h
        return mk((ch,))
    _, right = cut(s, i)
    h = head(right)
    if h is None:
        return None
    return mk((h[0],))
