def F(name, body):
    case(name, 'def f():\n' + '\n'.join('    ' + l for l in body.strip('\n').split('\n')) + '\n')


F('walrus', 'r = []\nxs = [1, 2, 3]\nwhile (x := xs.pop() if xs else None) is not None:\n    r.append(x)\nreturn r')
F('walrus comp', 'return [y for x in "abc" if (y := x.upper()) != "B"]')
F('match literal', 'r = []\nfor x in ("a", 1, None, [1, 2], {"k": 3}, (4,)):\n    match x:\n        case "a" | "b":\n            r.append("s")\n        case int(n):\n            r.append(n)\n        case None:\n            r.append("none")\n        case [p, *q] if q:\n            r.append((p, q))\n        case {"k": v}:\n            r.append(v)\n        case _:\n            r.append("other")\nreturn r')
case('match class', '@dataclasses.dataclass\nclass P:\n    a: int\n    b: str = "x"\ndef f():\n    match P(1):\n        case P(a=1, b=y):\n            return y\n')
case('dataclass', '@dataclasses.dataclass\nclass P:\n    a: int\n    b: list = dataclasses.field(default_factory=list)\n    c: str = "q"\ndef f():\n    p = P(1)\n    p.b.append(3)\n    return (p == P(1, [3]), p == P(1), P(2).b, dataclasses.replace(p, a=5).a, dataclasses.asdict(p))\n')
case('dataclass frozen order', '@dataclasses.dataclass(frozen=True, order=True)\nclass P:\n    a: int\n    b: int = 0\ndef f():\n    return (P(1) < P(2), sorted([P(3), P(1, 2), P(1)])[0].b, hash(P(1)) == hash(P(1)), len({P(1), P(1)}))\n')
case('dataclass post init', '@dataclasses.dataclass\nclass P:\n    a: int\n    d: int = dataclasses.field(init=False, default=0)\n    def __post_init__(self):\n        self.d = self.a * 2\ndef f():\n    return P(4).d\n')
case('namedtuple', 'P = collections.namedtuple("P", "a b")\nclass Q(NamedTuple):\n    a: int\n    b: str = "z"\ndef f():\n    p = P(1, 2)\n    q = Q(1)\n    x, y = q\n    return (p.a, p[1], p._replace(a=5).a, p == (1, 2), x, y, q.b, Q(a=2, b="k")[1], p._asdict() == {"a": 1, "b": 2})\n')
case('enum', 'class E(enum.Enum):\n    A = enum.auto()\n    B = enum.auto()\n    @property\n    def low(self):\n        return self.name.lower()\nclass S(str, enum.Enum):\n    X = "x"\ndef f():\n    return (E.A is E.A, E.A == E.B, E["B"] is E.B, E(1) is E.A, [e.name for e in E], E.A.low, E.B.value, S.X == "x", {E.A: 1}[E.A], E.A in (E.A, E.B), len(E))\n')
F('suppress', 'r = []\nwith contextlib.suppress(KeyError, ValueError):\n    r.append(1)\n    {}["a"]\n    r.append(2)\nreturn r')
F('exitstack', 'r = []\n@contextlib.contextmanager\ndef c(n):\n    r.append(n)\n    try:\n        yield n\n    finally:\n        r.append(-n)\nwith contextlib.ExitStack() as st:\n    for i in (1, 2):\n        st.enter_context(c(i))\n    st.callback(r.append, 9)\n    r.append(0)\nreturn r')
case('context class', 'class C:\n    def __init__(self, r): self.r = r\n    def __enter__(self):\n        self.r.append("in")\n        return self\n    def __exit__(self, t, v, tb):\n        self.r.append(t.__name__ if t else None)\n        return t is KeyError\ndef f():\n    r = []\n    with C(r): pass\n    with C(r): {}["x"]\n    try:\n        with C(r): [][1]\n    except IndexError as e:\n        r.append("ie")\n    return r\n')
F('closing nullcontext', 'with contextlib.nullcontext(5) as x:\n    return x')
F('itertools', 'return (list(itertools.chain([1], (2, 3))), list(itertools.chain.from_iterable([[1], [2]])), list(itertools.takewhile(lambda x: x < 3, [1, 2, 3, 1])), list(itertools.dropwhile(lambda x: x < 3, [1, 2, 3, 1])), list(itertools.islice([1, 2, 3, 4], 1, 3)), list(itertools.islice([1, 2, 3], 2)), list(itertools.zip_longest([1], [2, 3], fillvalue=0)), list(itertools.product("ab", [1, 2])), list(itertools.accumulate([1, 2, 3])), list(itertools.repeat("x", 2)), list(itertools.starmap(lambda a, b: a + b, [(1, 2)])), list(itertools.filterfalse(lambda x: x, [0, 1])), list(itertools.compress("abc", [1, 0, 1])), list(itertools.permutations([1, 2])), list(itertools.combinations([1, 2, 3], 2)), list(itertools.pairwise([1, 2, 3])))')
F('groupby', 'return [(k, list(g)) for k, g in itertools.groupby([1, 1, 2, 1], key=lambda x: x > 1)]')
F('itertools count', 'c = itertools.count(3)\nreturn [next(c), next(c)] + [x for x, _ in zip(itertools.count(), "ab")]')
F('itertools cycle tee', 'a, b = itertools.tee([1, 2])\nc = itertools.cycle("ab")\nreturn list(a) + list(b) + [next(c) for _ in range(3)]')
F('functools', 'return (functools.reduce(lambda a, b: a * b, [1, 2, 3]), functools.reduce(lambda a, b: a + b, [], 5), functools.partial(int, base=2)("11"), sorted([3, 1, 2], key=functools.cmp_to_key(lambda a, b: b - a)))')
case('lru_cache', 'calls = []\n@functools.lru_cache(maxsize=None)\ndef g(x):\n    calls.append(x)\n    return x * 2\ndef f():\n    return (g(1), g(1), g(2), len(calls))\n')
case('cached_property', 'class C:\n    n = 0\n    @functools.cached_property\n    def p(self):\n        C.n += 1\n        return 7\ndef f():\n    c = C()\n    return (c.p, c.p, C.n)\n')
case('wraps', 'def deco(fn):\n    @functools.wraps(fn)\n    def w(*a, **k):\n        return ("w",) + (fn(*a, **k),)\n    return w\n@deco\ndef g(a, b=2, *, c=3):\n    return a + b + c\ndef f():\n    return (g(1), g(1, 3, c=0), g.__name__)\n')
case('total_ordering', '@functools.total_ordering\nclass C:\n    def __init__(s, v): s.v = v\n    def __eq__(s, o): return s.v == o.v\n    def __lt__(s, o): return s.v < o.v\ndef f():\n    return (C(1) <= C(1), C(2) > C(1), C(1) >= C(2), max([C(1), C(3)]).v)\n')
case('singledispatch', '@functools.singledispatch\ndef g(x):\n    return "o"\n@g.register\ndef _(x: int):\n    return "i"\n@g.register(str)\ndef _(x):\n    return "s"\ndef f():\n    return (g(1), g("a"), g([]))\n')
F('operator', 'return (sorted([(1, "b"), (2, "a")], key=operator.itemgetter(1)), list(map(operator.attrgetter("real"), [1])), operator.add(1, 2), operator.itemgetter(0, 2)("abc"), operator.methodcaller("upper")("a"), operator.not_(0), operator.eq(1, 1), operator.lt(1, 2), operator.and_(True, False), operator.contains("ab", "a"))')
F('deque', 'd = collections.deque([1, 2, 3])\nd.appendleft(0)\nd.append(4)\nx = d.popleft()\nd.rotate(1)\ny = d.pop()\nd.extend([7])\nd.extendleft([8, 9])\nreturn (list(d), x, y, len(d), d[0], 7 in d, bool(collections.deque()))')
F('deque loop', 'd = collections.deque("ab")\nr = []\nwhile d:\n    r.append(d.popleft())\nreturn r')
F('defaultdict', 'd = collections.defaultdict(list)\nd["a"].append(1)\nd["b"]\nc = collections.defaultdict(int)\nfor x in "aab":\n    c[x] += 1\nreturn (dict(d), dict(c), "z" in d)')
F('Counter', 'c = collections.Counter("aab")\nreturn (c["a"], c["z"], c.most_common(1), sum(c.values()))')
F('OrderedDict', 'd = collections.OrderedDict([("a", 1), ("b", 2)])\nd.move_to_end("a")\nreturn list(d.items())')
F('ChainMap', 'm = collections.ChainMap({"a": 1}, {"a": 2, "b": 3})\nreturn (m["a"], m["b"], m.get("c"), "b" in m)')
F('str methods', 's = " aBc-d "\nreturn (s.strip(), s.lstrip(), s.rstrip(), s.title(), s.swapcase(), s.upper(), s.casefold(), s.center(11, "*"), s.ljust(9, "."), s.rjust(9), "7".zfill(3), "-7".zfill(4), s.find("B"), s.rfind("x"), s.index("c"), s.count("a"), s.replace("a", "A", 1), s.partition("-"), s.rpartition("-"), s.split("-"), s.rsplit("-", 1), s.startswith((" a", "b")), s.endswith("d "), "a,b,,c".split(","), " a  b ".split(), " a  b ".split(None, 1), "a\\nb\\n".splitlines(), "a\\nb\\n".splitlines(True), "abc".isalpha(), "12".isdigit(), "a1".isalnum(), " ".isspace(), "aB".isupper(), "ab".islower(), "ab".isidentifier(), "Ab".istitle())')
F('str methods 2', 'return ("prefix-x".removeprefix("prefix-"), "x.py".removesuffix(".py"), "a{}b{x}".format(1, x=2), "%s-%d-%r" % ("a", 1, "q"), "%(a)s" % {"a": 5}, "%05.1f|%x" % (3.14159, 255), "abc".translate(str.maketrans("ab", "xy")), "abc".translate(str.maketrans("", "", "b")), "a\\tb".expandtabs(4), "ab" * 2, "a" < "b", "abc"[::-1], "abc"[-2:], "".join(reversed("ab")), ord("a"), chr(98), "é".encode("utf8"), b"ab".decode(), "a".encode() + b"c", "x" in "xyz", "abc".rindex("c"), min("b", "a"), sorted("bca"), "A".__class__.__name__, "{:>5}|{:<4}|{:^5}|{:03d}|{!r}".format("a", "b", "c", 7, "z"))')
F('fstring', 'x = 7\ns = "ab"\nw = 5\nreturn (f"{x:03d}", f"{s!r}", f"{s:>{w}}", f"{x=}", f"{s.upper()}{{}}", f"{x:+}", f"{1.5:.2f}", f"{x:x}", f"{s:*^6}", f"{None}", f"{[1]}", f"{x!s:>3}")')
F('bytes', 'b = b"a\\nb"\nreturn (b.split(b"\\n"), b.startswith(b"a"), b[0], b[:1], b"x".join([b"1", b"2"]), bytes([65]), b.splitlines(), b.replace(b"a", b"c"), len(b), bytes(2), b"a" in b, b.strip(), b.decode("utf8", errors="replace"), bytearray(b"x"))')
F('list methods', 'l = [3, 1, 2]\nl.sort()\nl.reverse()\nl.insert(1, 9)\nl.extend((4, 5))\nl.remove(9)\nx = l.pop(0)\nl += [7]\nl[1:2] = [8, 8]\ndel l[0]\ndel l[-2:]\nc = l.copy()\nl.clear()\nreturn (c, l, x, [1, 2, 1].index(1, 1), [1, 1].count(1), [0] * 3, [1, 2] == [1, 2], [1, 2] < [1, 3], c is not l)')
F('list slices', 'l = list(range(10))\ndel l[::3]\nl[::2] = "abc"\nm = l[:]\nm[2:2] = [7]\nm[-1:] = []\nreturn (l, m, l[-3::-1], l[5:1:-2], slice(1, 3).indices(2), l[slice(1, None)])')
F('dict methods', 'd = {"a": 1}\nd.update(b=2)\nd.update([("c", 3)])\nd |= {"e": 5}\nx = d.pop("a")\ny = d.pop("z", None)\nd.setdefault("q", []).append(1)\nk = {**d, "n": 0}\nreturn (list(d.items()), x, y, d.get("b"), d.get("zz", 9), "b" in d, k, dict(zip("ab", [1, 2])), {k: v for k, v in d.items() if k != "q"}, dict.fromkeys("ab", 0), d.popitem(), list(reversed({"a": 1, "b": 2})), {"a": 1} | {"b": 2}, {"a": 1} == {"a": 1}, len(d), next(iter(d)))')
F('set methods', 's = {1, 2}\ns.add(3)\ns.discard(9)\ns |= {4}\ns -= {1}\nreturn (sorted(s), s & {2, 9}, s - {2, 3}, sorted(s ^ {2, 7}), {2} <= s, s >= {2}, s.issubset({2, 3, 4, 5}), s.isdisjoint({8}), frozenset([1]) == {1}, {x % 2 for x in (2, 4)}, sorted(set("aab").union("c")), set() == set([]), {1}.intersection([1, 2]), {1, 2}.difference([1]))')
F('builtins', 'return (any(x > 1 for x in [1, 2]), all([]), sum([1, 2], 3), sum(x for x in (1, 2)), min([3, 1], default=0), max([], default=7), max("a", "bb", key=len), min([(2, "a"), (1, "b")]), abs(-3), divmod(7, 2), round(2.5), pow(2, 3), list(map(str, [1, 2])), list(filter(None, [0, 1])), list(zip([1, 2], "ab")), list(enumerate("ab", 1)), list(range(5, 0, -2)), len(range(3)), 3 in range(4), list(reversed([1, 2])), sorted([2, 1], reverse=True), bool([]), int("12"), int("-3"), int("ff", 16), str(5), float("1.5"), isinstance(1, (int, str)), issubclass(bool, int), callable(len), type(1) is int, hasattr("a", "upper"), getattr("a", "nope", None), repr("a\'b"), ascii("é"), bin(5), hex(255), tuple("ab"), list("ab"), iter([1]).__next__(), next(iter([]), "d"))')
F('next loop', 'it = iter([1, 2, 3])\nfor x in it:\n    if x == 1:\n        next(it)\n    else:\n        return x')
F('iter sentinel', 'l = [1, 2, 0, 3]\nreturn list(iter(lambda: l.pop(0), 0))')
F('for else', 'r = []\nfor x in [1, 2]:\n    if x == 5:\n        break\nelse:\n    r.append("e")\nwhile True:\n    break\nelse:\n    r.append("no")\nfor x in []:\n    pass\nelse:\n    r.append("z")\nreturn r')
F('try', 'r = []\ntry:\n    try:\n        int("x")\n    except ValueError as e:\n        raise KeyError("k") from e\n    else:\n        r.append(0)\n    finally:\n        r.append("f")\nexcept (KeyError, IndexError) as e:\n    r.append(e.args)\n    r.append(type(e.__cause__).__name__)\nelse:\n    r.append("no")\ntry:\n    r.append("ok")\nexcept Exception:\n    pass\nelse:\n    r.append("else")\nreturn r')
F('finally return', 'def g():\n    for i in range(3):\n        try:\n            if i == 1:\n                continue\n            if i == 2:\n                return i\n        finally:\n            r.append(i)\nr = []\nreturn (g(), r)')
F('reraise', 'try:\n    try:\n        raise ValueError(1, 2)\n    except ValueError:\n        raise\nexcept Exception as e:\n    return (str(e), repr(e), e.args)')
F('exceptions', 'r = []\nfor g in (lambda: [][0], lambda: {}["a"], lambda: int("a"), lambda: None.x, lambda: 1 + "a", lambda: next(iter([])), lambda: [].remove(1), lambda: "a".index("b"), lambda: [1].index(2), lambda: 1 / 0, lambda: (1, 2)[5], lambda: {1}.remove(2), lambda: undefined_name, lambda: "a"[3], lambda: [].pop(), lambda: {}.popitem()):\n    try:\n        g()\n    except Exception as e:\n        r.append(type(e).__name__)\nreturn r')
F('assert', 'try:\n    assert 1 == 2, "m"\nexcept AssertionError as e:\n    return str(e)')
F('unpack', 'a, (b, *c), *d = 1, (2, 3, 4), 5, 6\nx = y = 3\n(e, f_), g = [[1, 2], 3]\nfirst, *_, last = "abcd"\nreturn (a, b, c, d, x, y, e, f_, g, first, last, [*c, 0], (*d,), {**{"a": 1}})')
F('star call', 'def g(a, *b, c=1, **d):\n    return (a, b, c, sorted(d.items()))\nreturn (g(*[1, 2], **{"c": 3, "z": 4}), g(1), g(*"ab", *[3], x=1))')
F('posonly', 'def g(a, /, b, *, c):\n    return (a, b, c)\nreturn g(1, b=2, c=3)')
F('closure', 'n = 0\ndef inc():\n    nonlocal n\n    n += 1\n    return n\ninc()\ninc()\nfs = [lambda i=i: i for i in range(3)]\ngs = [lambda: j for j in range(3)]\nreturn (n, [x() for x in fs], [x() for x in gs])')
F('generator', 'def g(n):\n    while n:\n        x = yield n\n        if x:\n            n = x\n        n -= 1\n    return "done"\ndef h():\n    r = yield from g(2)\n    yield r\na = g(5)\nr = [next(a), a.send(3), next(a)]\nreturn (r, list(h()), sum(g(3)), list(x for x in g(1)))')
F('generator close', 'r = []\ndef g():\n    try:\n        yield 1\n        yield 2\n    finally:\n        r.append("c")\na = g()\nnext(a)\na.close()\nreturn r')
F('comprehension nested', 'return ([(i, j) for i in range(3) for j in range(i) if i != 2], [[y for y in x] for x in ("ab", "c")], {k: [v] for k, v in zip("ab", (1, 2))}, list(x for x in [1] if True))')
F('chained', 'x = 3\nreturn (1 < x < 5, 1 < x > 5, x == 3 != 4, not x, x if x else 0, x and 0 or 7, None or "d", x is not None, "a" not in "b", 1 <= 1 == True)')
F('arith', 'return (7 // 2, -7 // 2, 7 % 3, -7 % 3, 2 ** 5, 7 / 2, 1 << 3, 5 & 3, 5 | 3, 5 ^ 1, ~5, -(-3), 5 >> 1, 0.1 + 0.2 > 0.3, 3 - 5, True + 1)')
case('properties', 'class C:\n    def __init__(self): self._x = 1\n    @property\n    def x(self): return self._x\n    @x.setter\n    def x(self, v): self._x = v * 2\n    @x.deleter\n    def x(self): self._x = None\n    @staticmethod\n    def s(a): return a\n    @classmethod\n    def c(cls, a): return (cls.__name__, a)\n    def _get(self): return "g"\n    y = property(_get)\nclass D(C):\n    @property\n    def x(self): return super().x + 1\ndef f():\n    c = C()\n    c.x = 5\n    r = [c.x, C.s(1), c.c(2), D.c(3), D().x, c.y]\n    del c.x\n    return r + [c.x]\n')
case('dunder', 'class C:\n    __slots__ = ("a", "b")\n    def __init__(self, a): self.a = a\n    def __getitem__(self, i): return (self.a, i)\n    def __len__(self): return 3\n    def __iter__(self):\n        yield from range(self.a)\n    def __contains__(self, x): return x == 1\n    def __call__(self, *a): return a\n    def __eq__(self, o): return isinstance(o, C) and self.a == o.a\n    def __hash__(self): return hash(self.a)\n    def __lt__(self, o): return self.a < o.a\n    def __add__(self, o): return C(self.a + o.a)\n    def __radd__(self, o): return "r"\n    def __iadd__(self, o):\n        self.a += o\n        return self\n    def __bool__(self): return self.a > 0\n    def __str__(self): return "S%d" % self.a\n    def __repr__(self): return "R"\n    def __neg__(self): return -self.a\n    def __int__(self): return self.a\n    def __index__(self): return self.a\n    def __reversed__(self): return iter([9])\n    def __format__(self, spec): return "F" + spec\ndef f():\n    c = C(2)\n    c += 1\n    return (c[5], c[1:2], len(c), list(c), 1 in c, 7 in c, c(1, 2), c == C(3), c != C(4), C(1) < c, (c + C(1)).a, 1 + c, bool(C(0)), str(c), repr([c]), -c, int(c), [0, 1, 2, 3][c], list(reversed(c)), f"{c:x}", f"{c}", len({C(1), C(1)}), sorted([C(2), C(1)])[0].a)\n')
case('getattr', 'class C:\n    def __getattr__(self, n):\n        if n.startswith("x"):\n            return n\n        raise AttributeError(n)\n    def __setattr__(self, n, v):\n        object.__setattr__(self, n, (v,))\n    def __delattr__(self, n):\n        super().__delattr__(n)\ndef f():\n    c = C()\n    c.a = 1\n    r = [c.xy, c.a, hasattr(c, "q"), getattr(c, "q", 5), vars(c), c.__dict__]\n    del c.a\n    setattr(c, "b", 2)\n    return r + [c.b, hasattr(c, "a"), c.__class__.__name__, type(c).__name__]\n')
case('inherit', 'class A:\n    v = 1\n    def m(self): return "A"\nclass B(A):\n    def m(self): return "B" + super().m()\nclass M:\n    def m(self): return "M" + super().m()\nclass D(M, B): pass\ndef f():\n    return (D().m(), D.__mro__[1].__name__, isinstance(D(), A), D.v, [k.__name__ for k in A.__subclasses__()], issubclass(D, M), D.__name__)\n')
case('abc', 'class A(abc.ABC):\n    @property\n    @abc.abstractmethod\n    def x(self): ...\n    @abc.abstractmethod\n    def y(self): ...\nclass B(A):\n    x = 3\n    def y(self): return 4\ndef f():\n    try:\n        A()\n    except TypeError:\n        return (B().x, B().y())\n')
case('init_subclass', 'R = []\nclass A:\n    def __init_subclass__(cls, tag=None, **k):\n        R.append((cls.__name__, tag))\nclass B(A, tag=3): pass\ndef f():\n    return R\n')
case('metaclass new', 'class C:\n    def __new__(cls, x):\n        o = super().__new__(cls)\n        o.y = x + 1\n        return o\n    def __init__(self, x): self.x = x\ndef f():\n    c = C(1)\n    return (c.x, c.y)\n')
case('userlist', 'class L(collections.UserList):\n    def __delitem__(self, i):\n        super().__delitem__(i)\ndef f():\n    l = L([1, 2, 3])\n    l.append(4)\n    l.insert(0, 0)\n    del l[1]\n    l += [9]\n    return (list(l), len(l), l[0], l.data[-1], l == [0, 2, 3, 4, 9], L([1]) + [2] == [1, 2], l.index(3), 9 in l, l.count(9), [x for x in reversed(l)], bool(L()))\n')
case('mutablesequence', 'class L(collections.abc.MutableSequence):\n    def __init__(self): self.d = [1, 2]\n    def __getitem__(self, i): return self.d[i]\n    def __setitem__(self, i, v): self.d[i] = v\n    def __delitem__(self, i): del self.d[i]\n    def __len__(self): return len(self.d)\n    def insert(self, i, v): self.d.insert(i, v)\ndef f():\n    l = L()\n    l.append(3)\n    l.extend([4])\n    l.remove(1)\n    x = l.pop()\n    l += [7]\n    l.reverse()\n    r = (list(l), x, l.index(3), 2 in l, l.count(2), list(reversed(l)))\n    l.clear()\n    return r + (len(l),)\n')
F('re functions', 'return (re.sub(r"\\d", "x", "a1b2", count=1), re.sub("(a)(b)?", lambda m: m.group(1).upper(), "abca"), re.sub("(?P<q>a)", r"<\\g<q>\\1>", "ba"), re.subn("a", "b", "aa"), re.split(r"(,)\\s*", "a, b,c"), re.split(",", "a,b,c", maxsplit=1), re.findall("a(.)", "abac"), re.findall("a", "aa"), re.findall("(a)(b)", "abab"), [m.start() for m in re.finditer("a", "aba")], re.fullmatch("a+", "aa") is not None, re.fullmatch("a", "ab"), re.search("b", "abb").span(), re.match("(a)(x)?", "a").groups(), re.match("(?P<k>a)", "a").groupdict(), re.escape("a.b"), re.match("a", "b"), re.compile("A", re.I).match("a").group(), re.match(r"(?P<a>.)(?P<b>.)", "xy").group("a", "b"), re.match("(a)|b", "b").group(1), re.match("(a)(b)", "ab")[2], re.match("a", "ab").end(), re.match("(.)(.)", "ab").expand(r"\\2\\1"), re.match("(a)", "a").lastindex)')
F('re flags', 'return (re.match(r"""(?x) a  # c\n b """, "ab") is not None, re.compile("^b$", re.M).search("a\\nb").start(), re.match("a.b", "a\\nb", re.S) is not None, re.match("(?i)AB", "ab") is not None, re.compile("a", re.I | re.M).flags & re.I == re.I, re.compile("x").pattern, re.compile(r"\\bfoo\\b").search("a foo").start(), re.match(r"(?:a|b)*?c", "abc").group(), re.match("a{2,3}", "aaaa").group(), re.match("[^a-c]", "d").group(), re.match(r"(?!a)b", "b").group(), re.search(r"(?<!a)b", "abb").start(), re.search("(?<=a)b", "ab").start(), re.compile("b").match("ab", 1) is not None, re.compile("b").search("abab", 2).start())')
F('string', 'return (string.digits, string.ascii_lowercase[:3], string.Template("$a-${b}").substitute(a=1, b=2), string.Template("$x").safe_substitute(), string.whitespace[0], string.punctuation[:2])')
F('path', 'p = Path("/a/b.tar.gz")\nreturn (p.name, p.suffix, p.stem, str(p.parent), str(p / "c"), p.parts, p.suffixes, str(p.with_suffix(".x")), str(p.with_name("q")), p.is_absolute(), str(Path("a") / "b"), os.path.join("a", "b"), os.path.basename("/x/y"), os.path.dirname("/x/y"), os.path.splitext("a.b"), p == Path("/a/b.tar.gz"), os.path.split("/a/b"), str(pathlib.PurePath("a/b").name))')
F('copy', 'a = [[1], {"k": [2]}]\nb = copy.copy(a)\nc = copy.deepcopy(a)\na[0].append(9)\na[1]["k"].append(8)\nreturn (b, c, b[0] is a[0])')
case('copy class', 'class C:\n    def __init__(self): self.l = [1]\n    def __copy__(self):\n        r = self.__class__.__new__(self.__class__)\n        r.__dict__.update(self.__dict__)\n        return r\n    def __deepcopy__(self, memo):\n        r = self.__class__.__new__(self.__class__)\n        memo[id(self)] = r\n        for k, v in self.__dict__.items():\n            setattr(r, k, copy.deepcopy(v, memo))\n        return r\ndef f():\n    c = C()\n    d, e = copy.copy(c), copy.deepcopy(c)\n    c.l.append(2)\n    return (d.l, e.l)\n')
F('bisect', 'return (bisect.bisect([1, 3, 5], 3), bisect.bisect_left([1, 3], 3), bisect.bisect_right([1, 3], 0))')
F('textwrap', 'return textwrap.dedent("  a\\n  b\\n")')
F('hashlib json', 'return (hashlib.sha256(b"a").hexdigest()[:8], hashlib.md5("a".encode()).hexdigest()[:4], json.dumps({"a": [1, None]}), json.loads("[1]"))')
F('types', 'return (type(None) is types.NoneType, types.SimpleNamespace(a=1).a, isinstance([], collections.abc.Sequence), isinstance({}, collections.abc.Mapping), isinstance("", collections.abc.Iterable), isinstance(1, Hashable if False else object), isinstance((), (list, tuple)))')
F('global const', 'return (Ellipsis is ..., NotImplemented is NotImplemented, __name__ != "", (lambda *a: a)(1, 2))')
F('del', 'd = {"a": 1, "b": 2}\nl = [1, 2, 3]\ndel d["a"], l[0]\nx = 1\ndel x\ntry:\n    x\nexcept NameError:\n    return (d, l)')
F('aug', 'd = {"a": [1]}\nd["a"] += [2]\nx = 5\nx -= 2\nx *= 3\nx //= 2\nx **= 2\ns = "a"\ns += "b"\ns *= 2\nb = True\nb &= False\nb |= True\nreturn (d, x, s, b)')
F('typing', 'x: int = 1\ny: "List[int]" = [2]\nz: Optional[str]\nreturn (cast(int, x), y)')
F('multi with', '@contextlib.contextmanager\ndef c(n):\n    yield n\nwith c(1) as a, c(2) as b:\n    pass\nwith (c(3) as d, c(4)):\n    pass\nreturn (a, b, d)')
case('cm decorator', 'r = []\n@contextlib.contextmanager\ndef c():\n    r.append("in")\n    try:\n        yield\n    except KeyError:\n        r.append("ke")\n    finally:\n        r.append("out")\n@c()\ndef g():\n    r.append("g")\ndef f():\n    g()\n    with c():\n        raise KeyError\n    return r\n')
F('zip strict', 'return list(zip([1, 2], [3, 4], strict=True))')
F('sort stable', 'l = [("b", 1), ("a", 1), ("c", 0)]\nl.sort(key=lambda t: t[1], reverse=True)\nreturn (l, sorted({"b": 1, "a": 2}), sorted([(1, "z"), (1, "a")]))')
F('int methods', 'return ((5).bit_length(), int(3.7), (2).__add__(3), str(10).zfill(4), "0010".lstrip("0"), int("0010"), "%02d" % 5, float(2), 10 ** 2, int("1_0"))')
F('while pop', 'l = [1, 2, 3]\nr = []\nwhile l:\n    r.insert(0, l.pop())\nreturn r')
F('tuple ops', 't = (1, 2)\nreturn (t + (3,), t * 2, t.index(2), t.count(1), t[::-1], t < (1, 3), hash(t) == hash((1, 2)), () == tuple([]), len(t), 2 in t)')
F('lambda recursion', 'fact = lambda n: 1 if n < 2 else n * fact(n - 1)\ndef walk(x):\n    for i in x:\n        if isinstance(i, list):\n            yield from walk(i)\n        else:\n            yield i\nreturn (fact(5), list(walk([1, [2, [3]]])))')
F('datetime', 'import datetime\nd = datetime.date(2024, 1, 5)\nreturn (d.strftime("%a %b %d %Y"), d.weekday(), d.isoformat(), (d + datetime.timedelta(days=1)).day, d < datetime.date(2025, 1, 1), datetime.datetime(2024, 1, 5, 12).hour)')
F('logging', 'import logging\nlogger = logging.getLogger("x")\nlogger.debug("a %s", 1)\nlogger.warning(f"b")\nreturn logger.isEnabledFor(logging.DEBUG) in (True, False)')
F('urllib', 'import urllib.parse\nu = urllib.parse.urlparse("https://h/p/a.tgz#/b.tgz")\nreturn (u.scheme, u.netloc, u.path, u.fragment, urllib.parse.urlsplit("a/b").scheme, urllib.parse.urlsplit("https://h/x?q=1").query)')
F('shlex', 'import shlex\nreturn (shlex.split("a \'b c\' d"), shlex.quote("a b"))')
F('warnings', 'import warnings\nwarnings.warn("x", DeprecationWarning)\nreturn 1')
F('complex slice assign', 'l = [0, 1, 2, 3]\nl[1:3], l[0] = ["x"], "y"\ni = 0\ni, l[i] = 1, "z"\nreturn (l, i)')
F('str iteration', 'r = {}\nfor i, c in enumerate("aba"):\n    r.setdefault(c, []).append(i)\nreturn (r, [*"ab"], "".join(c for c in "abc" if c not in "b"), {c: ord(c) for c in "a"}, list(map(lambda a, b: a + b, "ab", "cd")))')
case('translate', '''
def f():
    return "a-b_c".translate(str.maketrans("-_", "..")), "a.b".translate({ord("."): None}), "x%y".translate(str.maketrans({"%": "%%"}))
''')
case('ops', '''
class A:
    def __xor__(self, o): return 1
    def __floordiv__(self, o): return 2
def f():
    r = []
    for g in (lambda: 1 + "a", lambda: None < 1, lambda: A() + 1, lambda: len(A()), lambda: [x for x in A()], lambda: A()[0], lambda: 1 in "abc"):
        try:
            g()
        except TypeError:
            r.append(1)
    return r, A() ^ 1, A() // 2
''')
