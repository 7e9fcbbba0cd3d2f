# Models of standard library helpers, written in Python and *interpreted
# abstractly* by the analyser (never imported by it).
def dropwhile(pred, it):
    dropping = True
    for x in it:
        if dropping and pred(x):
            continue
        dropping = False
        yield x

def takewhile(pred, it):
    for x in it:
        if not pred(x):
            return
        yield x

def chain(*its):
    for it in its:
        for x in it:
            yield x

def chain_from_iterable(its):
    for it in its:
        for x in it:
            yield x

def groupby(it, key=None):
    groups = []
    for x in it:
        k = x if key is None else key(x)
        if groups and groups[-1][0] == k:
            groups[-1][1].append(x)
        else:
            groups.append((k, [x]))
    for k, g in groups:
        yield k, iter(g)

def islice(it, *args):
    s = slice(*args)
    start = s.start or 0
    step = s.step or 1
    it = iter(it)
    i = 0
    while s.stop is None or i < s.stop:
        try:
            x = next(it)
        except StopIteration:
            return
        if i >= start and (i - start) % step == 0:
            yield x
        i += 1

def zip_longest(*its, fillvalue=None):
    lists = [list(i) for i in its]
    n = max([len(l) for l in lists], default=0)
    for i in range(n):
        yield tuple(l[i] if i < len(l) else fillvalue for l in lists)

def pairwise(it):
    l = list(it)
    for i in range(len(l) - 1):
        yield (l[i], l[i + 1])

def product(*its):
    lists = [list(i) for i in its]
    if not lists:
        yield ()
        return
    for x in lists[0]:
        for rest in product(*lists[1:]):
            yield (x,) + rest

def repeat(x, n):
    for _ in range(n):
        yield x

def accumulate(it, func=None):
    first = True
    acc = None
    for x in it:
        if first:
            acc = x
            first = False
        else:
            acc = acc + x if func is None else func(acc, x)
        yield acc

def filterfalse(pred, it):
    for x in it:
        if not pred(x):
            yield x

def reduce(f, it, *init):
    if init:
        acc = init[0]
        have = True
    else:
        acc = None
        have = False
    for x in it:
        if not have:
            acc = x
            have = True
        else:
            acc = f(acc, x)
    return acc

class partial:
    def __init__(self, func, *args, **kwargs):
        self.func = func
        self.args = args
        self.kw = kwargs

    def __call__(self, *args, **kwargs):
        return self.func(*self.args, *args, **{**self.kw, **kwargs})

class suppress:
    def __init__(self, *excs):
        self._excs = excs

    def __enter__(self):
        return None

    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, self._excs)

class nullcontext:
    def __init__(self, enter_result=None):
        self.enter_result = enter_result

    def __enter__(self):
        return self.enter_result

    def __exit__(self, *exc):
        return None

class closing:
    def __init__(self, thing):
        self.thing = thing

    def __enter__(self):
        return self.thing

    def __exit__(self, *exc):
        self.thing.close()

class ExitStack:
    def __init__(self):
        self._cbs = []

    def __enter__(self):
        return self

    def enter_context(self, cm):
        r = cm.__enter__()
        self._cbs.append((0, cm.__exit__, (), {}))
        return r

    def push(self, cm):
        self._cbs.append((0, cm.__exit__, (), {}))
        return cm

    def callback(self, f, *args, **kwargs):
        self._cbs.append((1, f, args, kwargs))
        return f

    def pop_all(self):
        n = ExitStack()
        n._cbs = self._cbs
        self._cbs = []
        return n

    def close(self):
        self.__exit__(None, None, None)

    def __exit__(self, t, v, tb):
        received = t is not None
        suppressed = False
        raised = None
        while self._cbs:
            kind, f, a, k = self._cbs.pop()
            try:
                if kind == 1:
                    f(*a, **k)
                elif f(t, v, tb):
                    suppressed = True
                    raised = None
                    t = v = tb = None
            except BaseException as e:
                t, v, tb = type(e), e, None
                suppressed = False
                raised = e
        if raised is not None:
            raise raised
        return received and suppressed

class deque:
    def __init__(self, it=(), maxlen=None):
        self._d = []
        self.maxlen = maxlen
        for x in it:
            self.append(x)

    def append(self, x):
        self._d.append(x)
        if self.maxlen is not None and len(self._d) > self.maxlen:
            self._d.pop(0)

    def appendleft(self, x):
        self._d.insert(0, x)

    def extend(self, it):
        for x in it:
            self.append(x)

    def extendleft(self, it):
        for x in it:
            self.appendleft(x)

    def pop(self):
        if not self._d:
            raise IndexError('pop from an empty deque')
        return self._d.pop()

    def popleft(self):
        if not self._d:
            raise IndexError('pop from an empty deque')
        return self._d.pop(0)

    def __len__(self):
        return len(self._d)

    def __iter__(self):
        return iter(list(self._d))

    def __reversed__(self):
        return reversed(list(self._d))

    def __getitem__(self, i):
        return self._d[i]

    def __contains__(self, x):
        return x in self._d

    def __setitem__(self, i, x):
        self._d[i] = x

    def __delitem__(self, i):
        del self._d[i]

    def __eq__(self, other):
        if not isinstance(other, deque):
            return NotImplemented
        return self._d == other._d

    def clear(self):
        self._d.clear()

    def copy(self):
        return deque(self._d, self.maxlen)

    def insert(self, i, x):
        self._d.insert(i, x)

    def remove(self, x):
        self._d.remove(x)

    def index(self, x, *a):
        return self._d.index(x, *a)

    def count(self, x):
        return self._d.count(x)

    def reverse(self):
        self._d.reverse()

    def rotate(self, n=1):
        for _ in range(n):
            if self._d:
                self._d.insert(0, self._d.pop())
        for _ in range(-n):
            if self._d:
                self._d.append(self._d.pop(0))


class SplitResult:
    def __init__(self, t, hostname):
        self._t = t
        self.scheme, self.netloc, self.path, self.query, self.fragment = t
        self.hostname = hostname

    def __iter__(self):
        return iter(self._t)

    def __len__(self):
        return 5

    def __getitem__(self, i):
        return self._t[i]

    def geturl(self):
        raise NotImplementedError


def starmap(f, it):
    for x in it:
        yield f(*x)

def compress(it, sel):
    for x, s in zip(it, sel):
        if s:
            yield x

def permutations(it, r=None):
    l = list(it)
    n = len(l) if r is None else r
    if n == 0:
        yield ()
        return
    for i in range(len(l)):
        for rest in permutations(l[:i] + l[i + 1:], n - 1):
            yield (l[i],) + rest

def combinations(it, r):
    l = list(it)
    if r == 0:
        yield ()
        return
    for i in range(len(l)):
        for rest in combinations(l[i + 1:], r - 1):
            yield (l[i],) + rest

def tee(it, n=2):
    l = list(it)
    return tuple(iter(l) for _ in range(n))

def cycle(it):
    l = list(it)
    while l:
        for x in l:
            yield x

class _CmpKey:
    def __init__(self, cmp, x):
        self._cmp = cmp
        self.obj = x

    def __lt__(self, other):
        return self._cmp(self.obj, other.obj) < 0

    def __gt__(self, other):
        return self._cmp(self.obj, other.obj) > 0

    def __eq__(self, other):
        return self._cmp(self.obj, other.obj) == 0

def cmp_to_key(cmp):
    return lambda x: _CmpKey(cmp, x)

class NTuple:
    def __iter__(self):
        return iter(self._t)

    def __len__(self):
        return len(self._t)

    def __getitem__(self, i):
        return self._t[i]

    def __contains__(self, x):
        return x in self._t

    def __eq__(self, other):
        if isinstance(other, NTuple):
            return self._t == other._t
        if isinstance(other, tuple):
            return self._t == other
        return NotImplemented

    def __hash__(self):
        return hash(self._t)

    def __lt__(self, other):
        return self._t < tuple(other)

    def __le__(self, other):
        return self._t <= tuple(other)

    def __gt__(self, other):
        return self._t > tuple(other)

    def __ge__(self, other):
        return self._t >= tuple(other)

    def __add__(self, other):
        return self._t + tuple(other)

    def index(self, *a):
        return self._t.index(*a)

    def count(self, x):
        return self._t.count(x)

    def _replace(self, **kw):
        return self.__class__(*[kw[n] if n in kw else v for n, v in zip(self._fields, self._t)])

    def _asdict(self):
        return dict(zip(self._fields, self._t))
