"""Regular expressions over segmented abstract strings: the compiled pattern's
syntax tree (re._parser) is walked against the segments; every way it can match
is one partition."""
import re
import re._parser as sp
from re import _constants as K
from .dom import *
from . import dom

CATS = {
    K.CATEGORY_DIGIT: mask_of(lambda c: re.match(r'\d', c)),
    K.CATEGORY_NOT_DIGIT: mask_of(lambda c: re.match(r'\D', c)),
    K.CATEGORY_SPACE: mask_of(lambda c: re.match(r'\s', c)),
    K.CATEGORY_NOT_SPACE: mask_of(lambda c: re.match(r'\S', c)),
    K.CATEGORY_WORD: mask_of(lambda c: re.match(r'\w', c)),
    K.CATEGORY_NOT_WORD: mask_of(lambda c: re.match(r'\W', c)),
}


class Rx:
    cache = {}

    def __init__(self, src, flags):
        self.src = src
        self.flags = flags
        self.re = re.compile(src, flags)
        self.tree = sp.parse(src, flags)
        self.fl = self.re.flags
        self.groups = self.re.groups
        self.nfa = None
        self.groupindex = dict(self.re.groupindex)

    @classmethod
    def get(cls, src, flags=0):
        k = (src, flags)
        if k not in cls.cache:
            cls.cache[k] = cls(src, flags)
        return cls.cache[k]


def char_mask(op, av, fl):
    ic = fl & re.IGNORECASE
    if op is K.LITERAL:
        ch = chr(av)
        m = cmask(ch)
        if m is None:
            raise Imprecise('regex literal outside the alphabet')
        if ic:
            m |= (cmask(ch.lower()) or 0) | (cmask(ch.upper()) or 0)
        return m
    if op is K.NOT_LITERAL:
        return FULL & ~char_mask(K.LITERAL, av, fl)
    if op is K.ANY:
        return FULL if fl & re.DOTALL else NOT_NL
    if op is K.IN:
        m = 0
        neg = False
        for o, a in av:
            if o is K.NEGATE:
                neg = True
            elif o is K.LITERAL:
                m |= char_mask(o, a, fl)
            elif o is K.RANGE:
                for i, c in enumerate(ALPHA):
                    if a[0] <= ord(c) <= a[1]:
                        m |= 1 << i
                        if ic:
                            m |= (cmask(c.lower()) or 0) | (cmask(c.upper()) or 0)
            elif o is K.CATEGORY:
                m |= CATS[a]
            else:
                raise Imprecise('regex class')
        return FULL & ~m if neg else m
    if op is K.CATEGORY:
        return CATS[av]
    return None


class Nfa:
    """Finite automaton of a pattern over character classes, used to discard
    partitions in which the pattern cannot match (and to recognise texts it
    always matches).  Look-around, back references and conditionals are
    over-approximated (`exact` is then False)."""
    ACC, ENDACC = 0, 1

    def __init__(self, rx):
        self.eps = [[], []]
        self.tr = [[(FULL, 0)], []]
        self.memo = {}
        self.clo = {}
        self.stepm = {}
        self.feasm = {}
        self.taint = set()
        self.taintm = {}
        self.rx = rx
        self.start = self.comp(rx.tree, 0, self.ACC, rx.fl)
        self.fullstart = None

    def full(self):
        """start state for fullmatch"""
        if self.fullstart is None:
            self.fullstart = self.comp(self.rx.tree, 0, self.ENDACC, self.rx.fl)
        return self.fullstart

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def comp(self, seq, i, nxt, fl):
        if i >= len(seq):
            return nxt
        k = (id(seq), i, nxt, fl)
        if k not in self.memo:
            op, av = seq[i]
            after = self.comp(seq, i + 1, nxt, fl)
            if op is K.AT and av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING) and not (seq is self.rx.tree and i == 0):
                s = self.new()
                self.eps[s].append(after)
                self.taint.add(s)
                self.memo[k] = s
            else:
                self.memo[k] = self.item(op, av, after, fl)
        return self.memo[k]

    def loop(self, mask, nxt):
        k = ('loop', mask, nxt)
        if k not in self.memo:
            s = self.new()
            self.tr[s].append((mask, s))
            self.eps[s].append(nxt)
            self.memo[k] = s
        return self.memo[k]

    def grouploop(self, sub, nxt, fl):
        k = ('gloop', id(sub), nxt, fl)
        if k not in self.memo:
            s = self.new()
            self.memo[k] = s
            self.eps[s].append(nxt)
            self.eps[s].append(self.comp(sub, 0, s, fl))
        return self.memo[k]

    def item(self, op, av, nxt, fl):
        r, exact = self._item(op, av, nxt, fl)
        if not exact:
            s = self.new()
            self.eps[s].append(r)
            self.taint.add(s)
            return s
        return r

    def _item(self, op, av, nxt, fl):
        exact = True
        m = char_mask(op, av, fl)
        if m is not None:
            s = self.new()
            self.tr[s].append((m, nxt))
            return s, exact
        if op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            hi = None if hi is K.MAXREPEAT else int(hi)
            if op is K.POSSESSIVE_REPEAT:
                exact = False
            if lo > 12 or hi is not None and hi > 12:
                exact = False
                lo, hi = min(lo, 12), None
            if hi is None:
                m1 = char_mask(*sub[0], fl) if len(sub) == 1 else None
                cur_ = self.loop(m1, nxt) if m1 is not None else self.grouploop(sub, nxt, fl)
            else:
                cur_ = nxt
                for _ in range(hi - lo):
                    e = self.new()
                    self.eps[e] += [nxt, self.comp(sub, 0, cur_, fl)]
                    cur_ = e
            for _ in range(lo):
                cur_ = self.comp(sub, 0, cur_, fl)
            return cur_, exact
        if op is K.SUBPATTERN:
            return self.comp(av[3], 0, nxt, (fl | av[1]) & ~av[2]), exact
        if op is K.BRANCH:
            s = self.new()
            for a in av[1]:
                self.eps[s].append(self.comp(a, 0, nxt, fl))
            return s, exact
        if op is K.AT:
            if av is K.AT_END and not fl & re.MULTILINE:
                s = self.new()
                self.eps[s].append(self.ENDACC)
                self.tr[s].append((NL, self.ENDACC))
                if nxt not in (self.ACC, self.ENDACC):
                    exact = False
                return s, exact
            if av is K.AT_END_STRING:
                if nxt not in (self.ACC, self.ENDACC):
                    exact = False
                return self.ENDACC, exact
            if av not in (K.AT_BEGINNING, K.AT_BEGINNING_STRING) or fl & re.MULTILINE:
                exact = False
            return nxt, exact
        if op is K.GROUPREF:
            exact = False
            return self.loop(FULL, nxt), exact
        if op is K.GROUPREF_EXISTS:
            exact = False
            gid, yes, no = av
            s = self.new()
            self.eps[s].append(self.comp(yes, 0, nxt, fl))
            self.eps[s].append(self.comp(no, 0, nxt, fl) if no else nxt)
            return s, exact
        if op is K.ATOMIC_GROUP:
            exact = False
            return self.comp(av, 0, nxt, fl), exact
        if op is K.FAILURE:
            return self.new(), exact
        exact = False
        return nxt, exact

    def closure(self, s):
        if s not in self.clo:
            seen = {s}
            todo = [s]
            while todo:
                for y in self.eps[todo.pop()]:
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            self.clo[s] = frozenset(seen)
        return self.clo[s]

    def step(self, S, mask):
        k = (S, mask)
        r = self.stepm.get(k)
        if r is None:
            out = set()
            for s in S:
                for m, t in self.tr[s]:
                    if m & mask:
                        out |= self.closure(t)
            r = self.stepm[k] = frozenset(out)
        return r

    def feas(self, state, spec):
        """can the automaton accept some concretisation of spec (tuple of
        (mask, lo, hi)) from the state?"""
        k = (state, spec)
        r = self.feasm.get(k)
        if r is not None:
            return r
        S = self.closure(state)
        r = None
        for mask, lo, hi in spec:
            if 0 in S:
                r = True
                break
            n = 0
            while n < lo and S and n < 40:
                S = self.step(S, mask)
                n += 1
            if hi is None or hi > lo:
                A = S
                k2 = 0
                while hi is None or k2 < hi - lo:
                    B = A | self.step(A, mask)
                    k2 += 1
                    if B == A:
                        break
                    A = B
                S = A
            if not S:
                r = False
                break
        if r is None:
            r = 0 in S or 1 in S
        self.feasm[k] = r
        return r

    def tainted(self, state):
        r = self.taintm.get(state)
        if r is None:
            seen = {state}
            todo = [state]
            while todo:
                x = todo.pop()
                for y in self.eps[x] + [t for _, t in self.tr[x]]:
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            r = self.taintm[state] = bool(seen & self.taint)
        return r

    def must(self, state, spec):
        """does the automaton accept every concretisation?"""
        if self.tainted(state):
            return False
        k = ('must', state, spec)
        r = self.feasm.get(k)
        if r is not None:
            return r
        cur_ = {self.closure(state)}
        for mask, lo, hi in spec:
            if lo > 40:
                return False
            chars = self.classes(mask)

            def adv(sets):
                out = set()
                for S in sets:
                    if 0 in S:
                        out.add(S)
                        continue
                    for ch in chars:
                        out.add(self.step(S, ch))
                return out
            for _ in range(lo):
                cur_ = adv(cur_)
                if len(cur_) > 60:
                    self.feasm[k] = False
                    return False
            k2 = 0
            while hi is None or k2 < hi - lo:
                n = cur_ | adv(cur_)
                k2 += 1
                if len(n) > 60:
                    self.feasm[k] = False
                    return False
                if n == cur_:
                    break
                cur_ = n
        r = all(0 in S or 1 in S for S in cur_)
        self.feasm[k] = r
        return r

    def classes(self, mask):
        """representatives of the character classes the automaton distinguishes"""
        k = ('cls', mask)
        if k not in self.memo:
            ms = {m for t in self.tr for m, _ in t}
            seen = {}
            i = 0
            x = mask
            while x:
                if x & 1:
                    seen.setdefault(tuple(bool(m >> i & 1) for m in ms), 1 << i)
                x >>= 1
                i += 1
            self.memo[k] = list(seen.values())
        return self.memo[k]


def spec_of(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            for ch in p:
                i = IDX.get(ch)
                out.append((0 if i is None else 1 << i, 1, 1))
        else:
            out.append((p.mask, p.lo, p.hi))
    return tuple(out)


def pick_feasible(opts, label):
    """opts: list of (feasible?, value[, certain?]) in order of priority: an
    option that is certain to lead to a match hides the later ones"""
    ok = []
    for o in opts:
        if o[0]:
            ok.append(o[1])
            if len(o) > 2 and o[2]:
                break
    if not ok:
        raise Infeasible('regex')
    return ok[cur().choose(len(ok), label)]


class St:
    def __init__(self, parts, fl, nfa):
        self.done = []
        self.rest = norm(parts)
        self.groups = {}
        self.starts = {}
        self.ends = {}
        self.fl = fl
        self.nfa = nfa

    def can(self, state, rest=None):
        return self.nfa.feas(state, spec_of(norm(self.rest if rest is None else rest)))

    def onestate(self, mask, after):
        nfa = self.nfa
        s = nfa.memo.get(('one', mask, after))
        if s is None:
            s = nfa.new()
            nfa.tr[s].append((mask, after))
            nfa.memo[('one', mask, after)] = s
        return s

    def one(self, mask, after):
        c = cur()
        while True:
            self.rest = norm(self.rest)
            if not self.rest:
                raise Infeasible('end')
            p = self.rest[0]
            if isinstance(p, str):
                i = IDX.get(p[0])
                if i is None or not mask >> i & 1:
                    raise Infeasible('char')
                self.done.append(p[0])
                self.rest = ([p[1:]] if p[1:] else []) + self.rest[1:]
                return
            inter = p.mask & mask
            if not inter:
                bind_empty(p)
                continue
            if p.lo == 0:
                tail = spec_of(self.rest[1:])
                hi = None if p.hi is None else p.hi - 1
                here = self.nfa.feas(after, ((p.mask, 0, hi),) + tail)
                s = self.onestate(mask, after)
                if pick_feasible([(here, 0), (len(self.rest) > 1 and self.nfa.feas(s, tail), 1)], 'segment empty?') == 1:
                    bind_empty(p)
                    continue
                p.lo = 1
            if p.hi == 1:
                p.mask = inter
                c.recheck()
                self.done.append(p)
                self.rest = self.rest[1:]
                return
            l, r = split_at(p, 1, inter)
            self.done.append(l)
            self.rest = [r] + self.rest[1:]
            return

    def run(self, mask, lo, hi, after, lazy=False):
        """consume a run of characters of the class, any feasible length"""
        c = cur()
        start = len(self.done)
        nfa = self.nfa
        if hi is not None and hi <= 3 or (lo > 1):
            k = lo
            for j in range(lo):
                self.one(mask, after if j == lo - 1 and hi == lo else nfa.loop(mask, after))
            if hi is None:
                return self.run(mask, 0, None, after, lazy)
            while k < hi:
                s = self.onestate(mask, nfa.loop(mask, after))
                sp_ = spec_of(norm(self.rest))
                opts = [(nfa.feas(s, sp_), 0, k == hi - 1 and nfa.must(self.onestate(mask, after), sp_)), (nfa.feas(after, sp_), 1, nfa.must(after, sp_))]
                if pick_feasible(opts[::-1] if lazy else opts, 'repeat') == 1:
                    return
                self.one(mask, nfa.loop(mask, after))
                k += 1
            return
        loop = nfa.loop(mask, after)
        while True:
            self.rest = norm(self.rest)
            if not self.rest:
                break
            p = self.rest[0]
            if isinstance(p, str):
                k = 0
                while k < len(p) and p[k] in IDX and mask >> IDX[p[k]] & 1:
                    k += 1
                tail = spec_of(self.rest[1:])
                opts = []
                for j in range(k, -1, -1):
                    # when nothing has been consumed yet, a + needs one character
                    empty = lo == 1 and j == 0 and len(self.done) == start
                    if j == len(p):
                        opts.append((nfa.feas(loop, tail), j, not lazy and nfa.must(loop, tail)))
                    else:
                        x = spec_of([p[j:]]) + tail
                        opts.append((not empty and nfa.feas(after, x), j, nfa.must(after, x)))
                j = pick_feasible(opts[::-1] if lazy else opts, 'run end')
                if j:
                    self.done.append(p[:j])
                self.rest = ([p[j:]] if p[j:] else []) + self.rest[1:]
                if j == len(p):
                    continue
                break
            tail = spec_of(self.rest[1:])
            inter = p.mask & mask
            if not inter:
                if p.lo > 0 or len(self.rest) == 1:
                    break
                if pick_feasible([(nfa.feas(after, ((p.mask, 1, p.hi),) + tail), 0), (nfa.feas(loop, tail), 1)], 'segment empty?') == 0:
                    p.lo = 1
                    break
                bind_empty(p)
                continue
            if p.hi == 1 and p.lo == 1:
                x = ((p.mask, 1, 1),) + tail
                empty = lo == 1 and len(self.done) == start
                opts = [(nfa.feas(loop, tail), 0, not lazy and inter == p.mask and nfa.must(loop, tail)), (not empty and nfa.feas(after, x), 1, nfa.must(after, x))]
                o = pick_feasible(opts[::-1] if lazy else opts, 'run end')
                if o == 0:
                    p.mask = inter
                    c.recheck()
                    self.done.append(p)
                    self.rest = self.rest[1:]
                    continue
                break
            x = ((p.mask, 1, p.hi),) + tail
            if lazy and p.lo == 0 and not (lo == 1 and len(self.done) == start) and nfa.must(after, x):
                if pick_feasible([(True, 0), (nfa.feas(loop, tail), 1)], 'segment empty?') == 0:
                    p.lo = 1
                    c.recheck()
                    break
                bind_empty(p)
                continue
            certain = not lazy and inter == p.mask and not (lo == 1 and p.lo == 0) and nfa.must(loop, tail)
            if lazy and p.lo and not (lo == 1 and len(self.done) == start) and nfa.must(after, x):
                break
            if pick_feasible([(nfa.feas(loop, ((inter, p.lo, p.hi),) + tail), 0, certain),
                              (nfa.feas(after, x), 1)], 'run covers segment?') == 0:
                p.mask = inter
                c.recheck()
                self.done.append(p)
                self.rest = self.rest[1:]
                continue
            l, r = split_any(p, inter, p.mask, 0, None, 1)
            self.done.append(l)
            self.rest = norm([r] + self.rest[1:])
            break
        if lo == 1:
            got = norm(self.done[start:])
            if any(isinstance(q, str) or q.lo > 0 for q in got):
                return
            vs = [q for q in got if not isinstance(q, str)]
            if not vs:
                raise Infeasible('empty run')
            if len(vs) == 1:
                vs[0].lo = 1
                if vs[0].hi == 0:
                    raise Infeasible('len')
                c.recheck()
            else:
                g = tuple(vs)
                c.fact('run+', lambda env: conc(g, env) != '')

    def at_end(self, strict=False):
        self.rest = norm(self.rest)
        if not self.rest:
            return
        c = cur()
        can_nl = not strict
        if can_nl:
            # remaining text may be exactly "\n"
            n = self.rest
            lit = ''.join(p for p in n if isinstance(p, str))
            if lit not in ('', '\n'):
                raise Infeasible('not at end')
            nlv = [p for p in n if not isinstance(p, str) and p.mask & NL]
            if lit == '\n':
                for p in n:
                    if not isinstance(p, str):
                        bind_empty(p)
                return
            if nlv:
                if c.choose(2, 'trailing newline?') == 1:
                    q = nlv[-1]
                    for p in n:
                        if p is not q:
                            bind_empty(p)
                    if q.lo > 1:
                        raise Infeasible('len')
                    q.lo = q.hi = 1
                    q.mask = NL
                    c.recheck()
                    return
        for p in self.rest:
            if isinstance(p, str):
                raise Infeasible('not at end')
            bind_empty(p)
        self.rest = []


def walk(seq, st, nxt):
    nfa = st.nfa
    for idx in range(len(seq)):
        op, av = seq[idx]
        after = nfa.comp(seq, idx + 1, nxt, st.fl)
        m = char_mask(op, av, st.fl)
        if m is not None:
            st.one(m, after)
        elif op in (K.MAX_REPEAT, K.MIN_REPEAT, K.POSSESSIVE_REPEAT):
            lo, hi, sub = av
            hi = None if hi is K.MAXREPEAT else hi
            m = char_mask(*sub[0], st.fl) if len(sub) == 1 else None
            if m is not None:
                st.run(m, lo, hi, after, op is K.MIN_REPEAT)
            else:
                loop = nfa.grouploop(sub, after, st.fl)
                for j in range(lo):
                    walk(sub, st, after if hi == lo and j == lo - 1 else loop)
                k = lo
                while (hi is None or k < hi):
                    inner = after if hi is not None and k == hi - 1 else loop
                    sp_ = spec_of(norm(st.rest))
                    more = nfa.comp(sub, 0, inner, st.fl)
                    opts = [(nfa.feas(more, sp_), 0, nfa.must(more, sp_)), (nfa.feas(after, sp_), 1, nfa.must(after, sp_))]
                    if pick_feasible(opts[::-1] if op is K.MIN_REPEAT else opts, 'repeat group') == 1:
                        break
                    if k >= lo + 2:
                        raise Bounded('group repetition')
                    walk(sub, st, inner)
                    k += 1
        elif op is K.SUBPATTERN:
            gid, add, dele, sub = av
            k = len(st.done)
            old = st.fl
            st.fl = (st.fl | add) & ~dele
            pre = tuple(st.done)
            walk(sub, st, after)
            st.fl = old
            if gid is not None:
                st.groups[gid] = tuple(st.done[k:])
                st.starts[gid] = pre
        elif op is K.BRANCH:
            alts = av[1]
            sp_ = spec_of(norm(st.rest))
            opts = []
            for a in alts:
                x = nfa.comp(a, 0, after, st.fl)
                opts.append((nfa.feas(x, sp_), a, nfa.must(x, sp_)))
            walk(pick_feasible(opts, 'alternative'), st, after)
        elif op is K.AT:
            if av in (K.AT_BEGINNING, K.AT_BEGINNING_STRING):
                for p in norm(st.done):
                    if isinstance(p, str):
                        raise Infeasible('not at start')
                    bind_empty(p)
            elif av is K.AT_END:
                st.at_end()
            elif av is K.AT_END_STRING:
                st.at_end(True)
        elif op is K.GROUPREF:
            if av not in st.groups:
                raise Infeasible('unset group')
            k = len(st.done)
            st.run(FULL, 0, None, after)
            unify(mk(st.done[k:]), mk(st.groups[av]))
        elif op is K.GROUPREF_EXISTS:
            gid, yes, no = av
            if gid in st.groups:
                walk(yes, st, after)
            elif no:
                walk(no, st, after)
        elif op in (K.ASSERT, K.ASSERT_NOT):
            pass            # checked on concretisation by the recorded fact
        elif op is K.ATOMIC_GROUP:
            walk(av, st, after)
        elif op is K.FAILURE:
            raise Infeasible('fail')
        else:
            raise Imprecise('regex op %s' % op)


class AMatch:
    """abstract match object"""

    def __init__(self, rx, s, pre, st):
        self.rx = rx
        self.s = s
        self.pre = pre
        self.st = st
        self.whole = tuple(st.done)
        self.rest = tuple(st.rest)

    def gid(self, g):
        if isinstance(g, int):
            return g
        return self.rx.groupindex.get(g)

    def group(self, g):
        if g == 0:
            return mk(self.whole)
        p = self.st.groups.get(g)
        return None if p is None else mk(p)

    def start(self, g):
        if g == 0:
            return plen(self.pre)
        if g not in self.st.groups:
            return -1
        return plen(tuple(self.pre) + self.st.starts[g])

    def end(self, g):
        if g == 0:
            return plen(tuple(self.pre) + self.whole)
        if g not in self.st.groups:
            return -1
        return plen(tuple(self.pre) + self.st.starts[g] + self.st.groups[g])


def first_class(rx):
    """mask of the leading class when the whole pattern is one class (repeat),
    possibly inside one group"""
    t = list(rx.tree)
    while len(t) == 1 and t[0][0] is K.SUBPATTERN:
        t = list(t[0][1][3])
    if len(t) == 1:
        op, av = t[0]
        m = char_mask(op, av, rx.fl)
        if m is not None:
            return m
        if op in (K.MAX_REPEAT,) and av[0] >= 1 and len(av[2]) == 1:
            return char_mask(*av[2][0], rx.fl)
    return None


def do_match(rx, s, mode, pos_parts=None):
    """mode: match | fullmatch | search.  Returns AMatch, python match or None"""
    if isinstance(s, str):
        return getattr(rx.re, mode)(s)
    c = cur()
    k = ('rx', rx.src, rx.flags, mode, key_of(s))
    if k in c.memo:
        return c.memo[k]
    sn = tuple(norm(s))
    if rx.nfa is None:
        rx.nfa = Nfa(rx)
    nfa = rx.nfa
    anchored = rx.tree and rx.tree[0][0] is K.AT and rx.tree[0][1] in (K.AT_BEGINNING, K.AT_BEGINNING_STRING)
    begin = nfa.full() if mode == 'fullmatch' else nfa.start
    fc = first_class(rx)
    lead = None
    if mode == 'search' and not anchored:
        lead = FULL if fc is None else FULL & ~fc
        begin = nfa.loop(FULL, begin)
    spec = spec_of(sn)
    if not nfa.feas(begin, spec):
        yes = False
    elif nfa.must(begin, spec):
        yes = True
    else:
        yes = c.choose(2, 'regex %s %r' % (mode, rx.src[:40])) == 0
    if not yes:
        c.memo[k] = None
        c.fact('no %s %r' % (mode, rx.src[:60]), lambda env: getattr(rx.re, mode)(conc(sn, env)) is None)
        if fc is not None and mode == 'search':
            for p in sn:
                if not isinstance(p, str):
                    p.mask &= ~fc
                    if p.mask == 0:
                        if p.lo > 0:
                            raise Infeasible('class')
                        p.hi = 0
                elif any(ch in IDX and fc >> IDX[ch] & 1 for ch in p):
                    raise Infeasible('class')
            c.recheck()
        else:
            def tri():
                n = norm(sn)
                if all(isinstance(p, str) for p in n):
                    return getattr(rx.re, mode)(''.join(n)) is not None
                return True if nfa.must(begin, spec_of(n)) else None
            c.neg(tri)
        return None
    st = St(sn, rx.fl, nfa)
    pre = ()
    if lead is not None:
        st.run(lead, 0, None, nfa.start, True)
        pre = tuple(st.done)
        st.done = []
    walk(rx.tree, st, nfa.ENDACC if mode == 'fullmatch' else nfa.ACC)
    if mode == 'fullmatch':
        st.at_end(True)
    m = AMatch(rx, s, pre, st)
    c.memo[k] = m
    c.memo[('rx', rx.src, rx.flags, mode, key_of(s))] = m

    def chk(env):
        mm = getattr(rx.re, mode)(conc(sn, env))
        if mm is None:
            return False
        if mm.start() != len(conc(pre, env)) or mm.group() != conc(m.whole, env):
            return False
        for g in range(1, rx.groups + 1):
            mine = st.groups.get(g)
            theirs = mm.group(g)
            if (mine is None) != (theirs is None):
                return False
            if mine is not None and conc(mine, env) != theirs:
                return False
        return True
    c.fact('%s %r' % (mode, rx.src[:60]), chk)
    return m


def do_split(rx, s, maxsplit):
    if isinstance(s, str):
        return rx.re.split(s, maxsplit)
    out = []
    cursor = s
    n = 0
    while True:
        if maxsplit and n >= maxsplit:
            break
        if n >= 4:
            raise Bounded('split pieces')
        m = do_match(rx, cursor, 'search')
        if m is None:
            break
        if not isinstance(m, AMatch):
            out.append(cursor[:m.start()])
            out.extend(m.groups())
            cursor = cursor[m.end():]
            n += 1
            if m.end() == m.start():
                break
            continue
        w = mk(m.whole)
        if norm(w) and not truth(w):
            pass
        if not norm(w):
            # empty matches: only the anchored case (pattern starts with ^)
            t = rx.tree
            if not (t and t[0][0] is K.AT) and maxsplit != 1:
                raise Imprecise('split on empty match')
            out.append(mk(m.pre))
            out.extend(m.group(g) for g in range(1, rx.groups + 1))
            cursor = mk(m.rest)
            n += 1
            break
        out.append(mk(m.pre))
        out.extend(m.group(g) for g in range(1, rx.groups + 1))
        cursor = mk(m.rest)
        n += 1
        if rx.tree and rx.tree[0][0] is K.AT and rx.tree[0][1] is K.AT_BEGINNING:
            break
    out.append(cursor)
    return out


def do_sub(rx, repl, s, count=0):
    """class patterns only; repl: callable(AStr char)->value or template str"""
    if isinstance(s, str) and isinstance(repl, str):
        return rx.re.sub(repl, s, count)
    fc = first_class(rx)
    t = list(rx.tree)
    if fc is None or not isinstance(repl, str) or count or char_mask(*t[0], rx.fl) is None:
        return None

    def one(ch):
        if isinstance(ch, str):
            return rx.re.sub(repl, ch)
        # template with \g<0> only
        pieces = re.split(r'\\g<0>', repl)
        pieces = [p.replace('\\\\', '\\') for p in pieces]
        out = []
        for i, p in enumerate(pieces):
            if i:
                out.append(ch)
            out.append(p)
        return mk(out)
    return map_class(s, fc, one)


def map_class(s, mask, fn, depth=0):
    """apply fn to each character in the class, keep the others"""
    out = []
    c = cur()
    todo = norm(s)
    n = 0
    while todo:
        p = todo.pop(0)
        if isinstance(p, str):
            for ch in p:
                out.append(fn(ch) if ch in IDX and mask >> IDX[ch] & 1 else ch)
            continue
        if not p.mask & mask:
            out.append(p)
            continue
        if p.lo == 1 and p.hi == 1:
            if char_in(p, mask):
                q = norm([p])
                out.append(fn(q[0] if isinstance(q[0], str) else p))
            else:
                out.append(p)
            continue
        if c.choose(2, 'class occurs?') == 0:
            p.mask &= ~mask
            if p.mask == 0:
                if p.lo:
                    raise Infeasible('class')
                p.hi = 0
            c.recheck()
            todo = norm([p]) + todo
            continue
        n += 1
        if n > 3 or p.depth > c.max_depth:
            raise Bounded('map')
        l = c.fresh(p.name + '.', p.mask & ~mask, 0, None if p.hi is None else p.hi - 1, p.depth)
        x = c.fresh(p.name + '!', p.mask & mask, 1, 1, p.depth)
        r = c.fresh(p.name + "'", p.mask, 0, None if p.hi is None else p.hi - 1, p.depth + 1)
        if l.mask == 0:
            l.hi = 0
        if p.hi is not None:
            ph = p.hi
            c.fact('len', lambda env, q=(l, x, r), ph=ph: len(conc(q, env)) <= ph)
        if p.lo > 1:
            pl = p.lo
            c.fact('len', lambda env, q=(l, x, r), pl=pl: len(conc(q, env)) >= pl)
        bind(p, (l, x, r))
        out.append(l)
        todo = norm([x, r]) + todo
    return mk(out)
