"""Abstract interpreter for the Python subset used by the repository.

It walks the syntax trees of /repo/specfile (plus a few models of standard
library classes in prelude.py) over the abstract values of dom.py.  A generator
function is walked as a coroutine so that `yield`, `with` and exceptional exits
have their real meaning.  Everything it does not model raises Imprecise and the
path is left undecided - it never turns into a report."""
import ast
import builtins as pyb
import os
import sys

from .dom import *
from . import dom

REPO = os.environ.get('VERIF_REPO', '/repo')
def _sample_function():
    pass


MODELLED = {'io', 'prelude', 'datetime', 'pathlib', 'tempfile', 'world_src', 'string', 'contextlib'}


class AbsRaise(Exception):
    def __init__(self, exc):
        self.exc = exc

    def __repr__(self):
        return 'AbsRaise(%s %s)' % (self.exc.cls.name, self.exc.attrs.get('args'))


class VClass:
    def __init__(self, name, bases, attrs, module=None):
        self.name = name
        self.bases = bases
        self.attrs = attrs
        self.module = module
        self.mro = c3(self)
        self.subclasses = []
        self.is_enum = any(b.is_enum for b in bases) if bases else False
        self.is_intenum = any(b.is_intenum for b in bases) if bases else False
        for b in bases:
            b.subclasses.append(self)

    def lookup(self, name):
        for k in self.mro:
            if name in k.attrs:
                return k.attrs[name]
        return None

    def has(self, name):
        return any(name in k.attrs for k in self.mro)

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return '<class %s>' % self.name


def c3(cls):
    seqs = [list(b.mro) for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            return out
        for s in seqs:
            cand = s[0]
            if not any(cand in t[1:] for t in seqs):
                break
        else:
            raise Imprecise('mro')
        out.append(cand)
        for s in seqs:
            if s[0] is cand:
                s.pop(0)


class VObj:
    n = 0
    __slots__ = ('cls', 'attrs', 'oid')

    def __init__(self, cls, attrs=None):
        VObj.n += 1
        self.oid = VObj.n
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}

    def __repr__(self):
        return '<%s #%d>' % (self.cls.name, self.oid)


class VFunc:
    def __init__(self, name, node, env, defaults, kwdefaults, module, qual):
        self.name = name
        self.node = node
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.module = module
        self.qual = qual
        self.attrs = {}
        self.cls = None
        self.is_gen = getattr(node, '_is_gen', None)
        if self.is_gen is None:
            self.is_gen = node._is_gen = has_yield(node)
        if not hasattr(node, '_locals'):
            node._locals = local_names(node)

    def __repr__(self):
        return '<function %s>' % self.qual


def has_yield(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def local_names(node):
    """names bound in the function's own scope"""
    out = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        out.add(x.arg)
    if a.vararg:
        out.add(a.vararg.arg)
    if a.kwarg:
        out.add(a.kwarg.arg)
    decl = set()
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
            continue
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr) and isinstance(m.target, ast.Name):
                    out.add(m.target.id)
            continue
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            decl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                out.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.MatchAs) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchStar) and n.name:
            out.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return out - decl


class VBound:
    __slots__ = ('func', 'self')

    def __init__(self, func, self_):
        self.func = func
        self.self = self_

    def __repr__(self):
        return '<bound %r of %r>' % (self.func, self.self)


class VBuiltin:
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return '<builtin %s>' % self.name


class VProperty:
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel


class VStatic:
    def __init__(self, f):
        self.f = f


class VClassMethod:
    def __init__(self, f):
        self.f = f


class VList:
    __slots__ = ('items', 'tag')

    def __init__(self, items=None):
        self.items = list(items or [])
        self.tag = None

    def __repr__(self):
        return 'L%r' % (self.items,)


class VSet:
    __slots__ = ('items', 'frozen')

    def __init__(self, items=None, frozen=False):
        self.items = list(items or [])
        self.frozen = frozen

    def __repr__(self):
        return 'Set%r' % (self.items,)


class VDict:
    """insertion ordered; keys compared abstractly"""
    __slots__ = ('items', 'fast', 'default_factory')

    def __init__(self, items=None):
        self.items = []      # [k, v]
        self.fast = {}
        self.default_factory = None
        for k, v in items or []:
            self.put(k, v)

    def slot(self, k):
        h = hkey(k)
        if h is not None and h in self.fast:
            return self.fast[h]
        if h is not None and not any(isinstance(e[0], (AStr, VKey)) for e in self.items):
            return None
        for e in self.items:
            if h is not None and hkey(e[0]) is not None:
                continue
            if deep_eq(e[0], k):
                return e
        return None

    def put(self, k, v):
        e = self.slot(k)
        if e is not None:
            e[1] = v
            return
        e = [k, v]
        self.items.append(e)
        h = hkey(k)
        if h is not None:
            self.fast[h] = e

    def drop(self, k):
        e = self.slot(k)
        if e is None:
            return False
        self.items = [x for x in self.items if x is not e]
        h = hkey(e[0])
        if h is not None:
            self.fast.pop(h, None)
        return True

    def __repr__(self):
        return 'D{%s}' % ', '.join('%r: %r' % (k, v) for k, v in self.items)


class VAttrDict:
    """obj.__dict__"""
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj


class VKey:
    """opaque but structural digest (pickle.dumps, sha256)"""
    __slots__ = ('kind', 'val')

    def __init__(self, kind, val):
        self.kind = kind
        self.val = val

    def __repr__(self):
        return 'Key(%s)' % (self.kind,)


class VModule:
    def __init__(self, name, attrs=None):
        self.name = name
        self.attrs = attrs if attrs is not None else {}

    def __repr__(self):
        return '<module %s>' % self.name


class VGen:
    """generator object; .it is the python generator walking the body"""

    def __init__(self, it, func=None):
        self.it = it
        self.func = func
        self.done = False
        self.running = False
        self.started = False
        self.result = None

    def __repr__(self):
        return '<generator %r>' % (self.func,)


class VIter:
    """iterator over a python iterator of abstract values"""

    def __init__(self, it, kind='iter'):
        self.it = it
        self.kind = kind


class VSuper:
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class VRange:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class VSlice:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class ABytes:
    """encoded abstract string"""

    def __init__(self, s, enc, errors):
        self.s, self.enc, self.errors = s, enc, errors


class Noop:
    """object whose every attribute/call is irrelevant (logging, typing)"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Noop(%s)' % self.name


class Opq:
    """free opaque value: any value of its kind is possible"""

    def __init__(self, name, kind='any', ident=None):
        self.name = name
        self.kind = kind
        self.ident = ident
        self.attrs = {}

    def __repr__(self):
        return '?%s' % self.name


class OInt:
    """free integer with interval refinement"""

    def __init__(self, name, lo=None, hi=None):
        self.name, self.lo, self.hi = name, lo, hi
        self.ne = set()

    def __repr__(self):
        return 'int?%s' % self.name


def hkey(k):
    if k is None or isinstance(k, (bool, int, str, bytes, float)):
        return (type(k) is bool and 'b' or 'c', k) if not isinstance(k, bool) else ('c', int(k))
    if isinstance(k, tuple):
        out = []
        for x in k:
            h = hkey(x)
            if h is None:
                return None
            out.append(h)
        return ('t', tuple(out))
    if isinstance(k, (AStr, VKey, Lin)):
        return None
    if isinstance(k, (VClass, VFunc, VModule, VBuiltin)):
        return ('o', id(k))
    if isinstance(k, VObj):
        if k.cls.is_enum:
            return ('o', id(k))
        return ('o', id(k))
    return None


def deep_eq(a, b):
    """structural equality without user-defined __eq__ (keys, digests)"""
    if a is b:
        return True
    if is_str(a) and is_str(b):
        return streq(a, b)
    if isinstance(a, VKey) and isinstance(b, VKey):
        return a.kind == b.kind and deep_eq(a.val, b.val)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(deep_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, (bool, int, float, bytes, type(None))) and isinstance(b, (bool, int, float, bytes, type(None))):
        return a == b and (a is None) == (b is None)
    if isinstance(a, (Lin, OInt)) or isinstance(b, (Lin, OInt)):
        if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
            return lzero(ladd(a, b, -1))
        raise Imprecise('key eq')
    if isinstance(a, Opq) or isinstance(b, Opq):
        if isinstance(a, Opq) and isinstance(b, Opq) and a.ident is not None and a.ident == b.ident:
            return True
        k = ('opqeq',) + tuple(sorted((id(a), id(b))))
        c = cur()
        if k not in c.memo:
            c.memo[k] = c.choose(2, 'opaque equal?') == 0
        return c.memo[k]
    return False


class Env:
    __slots__ = ('vars', 'parent', 'locals', 'module', 'func', 'nonlocals', 'globals_', 'cls_scope')

    def __init__(self, parent, module, locals_=None, func=None, cls_scope=False):
        self.vars = {}
        self.parent = parent
        self.module = module
        self.locals = locals_
        self.func = func
        self.nonlocals = None
        self.globals_ = None
        self.cls_scope = cls_scope


_MISSING = object()


_PURE_NODES = (ast.arguments, ast.arg, ast.Expr, ast.Constant, ast.Assign, ast.AugAssign, ast.If, ast.Return, ast.Compare, ast.Name, ast.BoolOp, ast.BinOp, ast.UnaryOp,
               ast.JoinedStr, ast.FormattedValue, ast.IfExp, ast.List, ast.Tuple, ast.Set, ast.expr_context, ast.operator, ast.cmpop, ast.boolop, ast.unaryop)


def _pure_scan(todo):
    """names called and read by an expression or body without effects, or None"""
    calls, names = [], []
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Call):
            if n.keywords:
                return None
            if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 're' and n.func.attr in ('escape', 'compile'):
                pass
            elif isinstance(n.func, ast.Name):
                calls.append(n.func.id)
            else:
                return None
            todo.extend(n.args)
        elif isinstance(n, ast.Attribute):
            if not (isinstance(n.value, ast.Name) and n.value.id == 're' and n.attr.isupper()):
                return None
        elif isinstance(n, _PURE_NODES):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                if not all(isinstance(t, ast.Name) for t in (n.targets if isinstance(n, ast.Assign) else [n.target])):
                    return None
            if isinstance(n, ast.Name):
                names.append(n.id)
            todo.extend(ast.iter_child_nodes(n))
        else:
            return None
    return calls, names


def _resolve(env, n):
    e = env
    while e is not None:
        if n in e.vars:
            return e.vars[n]
        e = e.parent
    return env.module.attrs.get(n)


def is_pure(f):
    """a function of its string arguments and of module constants only"""
    node = f.node
    r = getattr(node, '_pure', None)
    if r is None:
        r = False
        if isinstance(node, ast.FunctionDef) and not node.decorator_list and not f.is_gen:
            r = _pure_scan(list(node.body)) or False
        node._pure = r
    if r is False:
        return False
    for c in r[0]:
        g = _resolve(f.env, c)
        if not (isinstance(g, VFunc) and g is not f and is_pure(g)):
            return False
    local = node._locals
    for n in r[1]:
        if n not in local and f.env.parent is not None and any(n in e.vars for e in _chain(f.env)):
            return False
    return True


def _chain(e):
    while e is not None and e.parent is not None:
        yield e
        e = e.parent


class Interp:
    def __init__(self):
        self.pure_memo = {}
        from . import models
        self.modules = {}
        self.stubs = {}
        self.hooks = {}
        self.depth = 0
        self.steps = 0
        self.max_steps = 400000
        self.called = set()
        self.overrides = {}     # (module, name) -> value after module load
        self.exc_stack = []
        self.models = models
        models.install(self)

    # ---------------------------------------------------------------- utils
    def exc_class(self, name):
        return self.builtins[name]

    def raise_(self, name, *args):
        cls = self.builtins[name] if isinstance(name, str) else name
        o = VObj(cls)
        o.attrs['args'] = tuple(args)
        raise AbsRaise(o)

    def type_of(self, v):
        B = self.builtins
        if v is None:
            return B['NoneType']
        if isinstance(v, bool):
            return B['bool']
        if isinstance(v, (int, Lin, OInt)):
            return B['int']
        if isinstance(v, float):
            return B['float']
        if is_str(v):
            return B['str']
        if isinstance(v, (bytes, ABytes, VKey)):
            return B['bytes']
        if isinstance(v, tuple):
            return B['tuple']
        if isinstance(v, VList):
            return B['list']
        if isinstance(v, VSet):
            return B['frozenset'] if v.frozen else B['set']
        if isinstance(v, (VDict, VAttrDict)):
            return B['dict']
        if isinstance(v, VObj):
            return v.cls
        if isinstance(v, VClass):
            return B['type']
        if isinstance(v, VRange):
            return B['range']
        if isinstance(v, VSlice):
            return B['slice']
        if isinstance(v, VGen):
            return B['generator']
        if isinstance(v, (VFunc, VBuiltin)):
            return B['function']
        if isinstance(v, VBound):
            return B['method']
        if isinstance(v, VProperty):
            return B['property']
        if isinstance(v, VIter):
            return B['iterator']
        if isinstance(v, Opq) and v.kind in B and isinstance(B[v.kind], VClass):
            return B[v.kind]
        raise Imprecise('type of %r' % (v,))

    def isinstance_(self, v, cls):
        if isinstance(cls, tuple):
            return any(self.isinstance_(v, c) for c in cls)
        if isinstance(cls, Noop):
            raise Imprecise('isinstance typing')
        if isinstance(v, Noop):
            raise Imprecise('isinstance noop')
        if not isinstance(cls, VClass):
            raise Imprecise('isinstance arg %r' % (cls,))
        t = self.type_of(v)
        if t.issub(cls):
            return True
        n = cls.name
        if cls.attrs.get('__abc__'):
            B = self.builtins
            vs = {'Iterable': ('list', 'tuple', 'dict', 'set', 'str', 'frozenset', 'range', 'generator'),
                  'Sequence': ('list', 'tuple', 'str', 'range'),
                  'MutableSequence': ('list',),
                  'Mapping': ('dict',), 'MutableMapping': ('dict',),
                  'Container': ('list', 'tuple', 'dict', 'set', 'str', 'frozenset', 'range'),
                  'Hashable': ('str', 'int', 'tuple'),
                  'Callable': ('function', 'method', 'type'),
                  'Generator': ('generator',), 'Iterator': ('generator', 'iterator')}.get(n, ())
            if any(t.issub(B[x]) for x in vs):
                return True
            need = {'Iterable': '__iter__', 'Hashable': '__hash__', 'Container': '__contains__', 'Callable': '__call__'}.get(n)
            if need and isinstance(v, VObj) and t.lookup(need) is not None:
                return True
        return False

    # ---------------------------------------------------------- truth & ops
    def truth(self, v):
        if v is None or v is False:
            return False
        if v is True:
            return True
        if isinstance(v, (int, float, bytes)):
            return bool(v)
        if is_str(v):
            return dom.truth(v)
        if isinstance(v, Lin):
            return not lzero(v)
        if isinstance(v, OInt):
            return not self.oint_cmp(v, 0, '==')
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, (VList, VSet)):
            return len(v.items) > 0
        if isinstance(v, VDict):
            return len(v.items) > 0
        if isinstance(v, VObj):
            f = v.cls.lookup('__bool__')
            if f is not None:
                return self.truth(self.call(self.bind_attr(f, v, v.cls), []))
            f = v.cls.lookup('__len__')
            if f is not None:
                return self.truth(self.call(self.bind_attr(f, v, v.cls), []))
            return True
        if isinstance(v, Opq):
            c = cur()
            k = ('truth', id(v))
            if k not in c.memo:
                c.memo[k] = (c.choose(2, 'truth of %s' % v.name) == 0, v)
            return c.memo[k][0]
        if isinstance(v, VRange):
            return self.truth(self.len_(v))
        if isinstance(v, Noop):
            raise Imprecise('truth of %r' % v)
        return True

    def oint_cmp(self, a, b, op):
        """comparison with at least one OInt"""
        if isinstance(a, OInt) and isinstance(b, int):
            return self._oint_const(a, int(b), op)
        if isinstance(b, OInt) and isinstance(a, int):
            flip = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '=='}[op]
            return self._oint_const(b, int(a), flip)
        if a is b:
            return op in ('<=', '>=', '==')
        c = cur()
        k = ('ocmp', id(a), id(b))
        if k not in c.memo:
            k2 = ('ocmp', id(b), id(a))
            if k2 in c.memo:
                s = -c.memo[k2][0]
            else:
                s = c.choose(3, 'compare %r %r' % (a, b)) - 1
                c.memo[k] = (s, a, b)
        else:
            s = c.memo[k][0]
        return {'<': s < 0, '>': s > 0, '<=': s <= 0, '>=': s >= 0, '==': s == 0}[op]

    def _oint_const(self, a, n, op):
        c = cur()
        lo, hi = a.lo, a.hi

        def decide(tlo, thi, flo, fhi):
            # true: value in [tlo,thi], false: [flo,fhi]
            def clip(l, h):
                nl = l if lo is None else (lo if l is None else max(l, lo))
                nh = h if hi is None else (hi if h is None else min(h, hi))
                if nl is not None and nh is not None:
                    while nl <= nh and nl in a.ne:
                        nl += 1
                    while nl <= nh and nh in a.ne:
                        nh -= 1
                    if nl > nh:
                        return None
                return (nl, nh)
            t, f = clip(tlo, thi), clip(flo, fhi)
            if t is None and f is None:
                raise Infeasible('int')
            if f is None:
                a.lo, a.hi = t
                return True
            if t is None:
                a.lo, a.hi = f
                return False
            if c.choose(2, 'int test %s %s %d' % (a.name, op, n)) == 0:
                a.lo, a.hi = t
                return True
            a.lo, a.hi = f
            return False
        if op == '<':
            return decide(None, n - 1, n, None)
        if op == '<=':
            return decide(None, n, n + 1, None)
        if op == '>':
            return decide(n + 1, None, None, n)
        if op == '>=':
            return decide(n, None, None, n - 1)
        if n in a.ne or (lo is not None and n < lo) or (hi is not None and n > hi):
            return False
        if lo is not None and lo == hi == n:
            return True
        if c.choose(2, 'int test %s == %d' % (a.name, n)) == 0:
            a.lo = a.hi = n
            return True
        a.ne.add(n)
        return False

    def eq(self, a, b):
        if a is b and not isinstance(a, (VObj, Noop)):
            return True
        if is_str(a) and is_str(b):
            return streq(a, b)
        ia = isinstance(a, (int, Lin, float))
        ib = isinstance(b, (int, Lin, float))
        if ia and ib:
            if isinstance(a, Lin) or isinstance(b, Lin):
                return lzero(ladd(a, b, -1))
            return a == b
        if isinstance(a, OInt) and (ib or isinstance(b, OInt)) or isinstance(b, OInt) and ia:
            return self.oint_cmp(a, b, '==')
        if isinstance(a, VObj) or isinstance(b, VObj):
            r = self.rich(a, b, '__eq__', '__eq__')
            if r is not _MISSING:
                return self.truth(r)
            if isinstance(a, VObj) and a.cls.is_intenum and (ib or isinstance(b, VObj) and b.cls.is_intenum):
                return a.attrs['_value_'] == (b.attrs['_value_'] if isinstance(b, VObj) else b)
            if isinstance(b, VObj) and b.cls.is_intenum and ia:
                return b.attrs['_value_'] == a
            for p, q in ((a, b), (b, a)):
                if isinstance(p, VObj) and p.cls.is_enum and not p.cls.is_intenum and p.cls.issub(self.builtins['str']):
                    if is_str(q):
                        return self.eq(p.attrs['_value_'], q)
                    if isinstance(q, VObj) and q.cls.issub(self.builtins['str']):
                        return self.eq(p.attrs['_value_'], q.attrs['_value_'])
            return a is b
        if isinstance(a, Opq) or isinstance(b, Opq):
            return deep_eq(a, b)
        if isinstance(a, VList) and isinstance(b, VList):
            return self.seq_eq(a.items, b.items)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.seq_eq(a, b)
        if isinstance(a, VKey) or isinstance(b, VKey):
            return deep_eq(a, b)
        if isinstance(a, VDict) and isinstance(b, VDict):
            if len(a.items) != len(b.items):
                return False
            for k, v in a.items:
                e = b.slot(k)
                if e is None or not self.eq(v, e[1]):
                    return False
            return True
        if isinstance(a, VSet) and isinstance(b, VSet):
            return (all(self.contains(b, x) for x in a.items) and all(self.contains(a, x) for x in b.items))
        if isinstance(a, (bytes,)) and isinstance(b, bytes):
            return a == b
        if isinstance(a, VBound) and isinstance(b, VBound):
            return a.func is b.func and a.self is b.self
        if isinstance(a, ABytes) or isinstance(b, ABytes):
            raise Imprecise('bytes eq')
        if isinstance(a, VRange) and isinstance(b, VRange):
            raise Imprecise('range eq')
        if isinstance(a, VSlice) and isinstance(b, VSlice):
            return self.eq(a.a, b.a) and self.eq(a.b, b.b) and self.eq(a.s, b.s)
        if isinstance(a, Noop) or isinstance(b, Noop):
            raise Imprecise('noop eq')
        return False

    def seq_eq(self, a, b):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if x is y:
                continue
            if not self.eq(x, y):
                return False
        return True

    def rich(self, a, b, op, rop):
        """user defined comparison; _MISSING when both decline"""
        NI = self.builtins['NotImplemented']
        tried = False
        order = [(a, b, op), (b, a, rop)]
        if isinstance(a, VObj) and isinstance(b, VObj) and b.cls is not a.cls and b.cls.issub(a.cls):
            order.reverse()
        for x, y, o in order:
            if isinstance(x, VObj):
                f = x.cls.lookup(o)
                if f is not None:
                    r = self.call(self.bind_attr(f, x, x.cls), [y])
                    if r is not NI:
                        return r
        return _MISSING

    def compare(self, op, a, b):
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            if isinstance(a, VObj) and a.cls.lookup('__ne__') is not None:
                r = self.rich(a, b, '__ne__', '__ne__')
                if r is not _MISSING:
                    return r
            return not self.eq(a, b)
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return not self.contains(b, a)
        name, rname, sym = {ast.Lt: ('__lt__', '__gt__', '<'), ast.Gt: ('__gt__', '__lt__', '>'),
                            ast.LtE: ('__le__', '__ge__', '<='), ast.GtE: ('__ge__', '__le__', '>=')}[type(op)]
        return self.order(a, b, name, rname, sym)

    def order(self, a, b, name, rname, sym):
        if isinstance(a, VObj) and a.cls.is_intenum:
            a = a.attrs['_value_']
        if isinstance(b, VObj) and b.cls.is_intenum:
            b = b.attrs['_value_']
        if isinstance(a, VObj) or isinstance(b, VObj):
            r = self.rich(a, b, name, rname)
            if r is _MISSING:
                self.type_error('unorderable', a, b)
            return r
        if isinstance(a, OInt) or isinstance(b, OInt):
            return self.oint_cmp(a, b, sym)
        if isinstance(a, (int, float, Lin)) and isinstance(b, (int, float, Lin)):
            if isinstance(a, Lin) or isinstance(b, Lin):
                if sym == '<':
                    return lcmp_lt(a, b)
                if sym == '>':
                    return lcmp_lt(b, a)
                if sym == '<=':
                    return not lcmp_lt(b, a)
                return not lcmp_lt(a, b)
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[sym]
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[sym]
        if is_str(a) and is_str(b):
            if tri_eq(a, b) is True:
                return sym in ('<=', '>=')
            import operator
            f = {'<': operator.lt, '>': operator.gt, '<=': operator.le, '>=': operator.ge}[sym]
            return opaque_pred('order' + sym, a, b, f)
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, VList) and isinstance(b, VList):
            x = a if isinstance(a, tuple) else a.items
            y = b if isinstance(b, tuple) else b.items
            for p, q in zip(x, y):
                if not self.eq(p, q):
                    return self.order(p, q, name, rname, sym)
            return {'<': len(x) < len(y), '>': len(x) > len(y), '<=': len(x) <= len(y), '>=': len(x) >= len(y)}[sym]
        if isinstance(a, VSet) and isinstance(b, VSet):
            sub = lambda x, y: all(self.contains(y, e) for e in x.items)
            if sym == '<=':
                return sub(a, b)
            if sym == '>=':
                return sub(b, a)
            if sym == '<':
                return sub(a, b) and not sub(b, a)
            return sub(b, a) and not sub(a, b)
        if a is None or b is None:
            self.type_error('unorderable', a, b)
        raise Imprecise('order %r %r' % (a, b))

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
            if isinstance(a, Opq) or isinstance(b, Opq):
                o = a if isinstance(a, Opq) else b
                x = b if isinstance(a, Opq) else a
                if o.kind in ('str', 'int', 'obj'):
                    return False
                if o.kind == 'bool' and x is None:
                    return False
                return deep_eq(a, b)
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return a is b
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, VAttrDict) and isinstance(b, VAttrDict):
            return a.obj is b.obj
        return False

    def contains(self, cont, item):
        if is_str(cont):
            if not is_str(item):
                self.type_error("'in <string>' requires string", item)
            if isinstance(cont, str) and not isinstance(item, str):
                n = norm(item)
                lo, hi = lbounds(plen(item))
                if hi is not None and hi == 1 and lo == 1 and len(n) == 1:
                    m = cmask(cont)
                    if m is not None:
                        return char_in(n[0], m)
            return dom.contains(cont, item)
        if isinstance(cont, (VList, VSet)):
            if is_str(item) and len(cont.items) > 6 and not isinstance(item, str) and all(isinstance(x, str) for x in cont.items):
                return self.member_big(cont.items, item)
            return any(item is x or self.eq(x, item) for x in list(cont.items))
        if isinstance(cont, tuple):
            return any(item is x or self.eq(x, item) for x in cont)
        if isinstance(cont, VDict):
            if is_str(item) and len(cont.items) > 6 and not isinstance(item, str) and all(isinstance(x[0], str) for x in cont.items):
                return self.member_big([x[0] for x in cont.items], item)
            return cont.slot(item) is not None
        if isinstance(cont, VAttrDict):
            if not isinstance(item, str):
                raise Imprecise('attr dict key')
            return item in cont.obj.attrs
        if isinstance(cont, VObj):
            f = cont.cls.lookup('__contains__')
            if f is not None:
                return self.truth(self.call(self.bind_attr(f, cont, cont.cls), [item]))
            for x in self.iterate(cont):
                if item is x or self.eq(x, item):
                    return True
            return False
        if isinstance(cont, VRange):
            if cont.s != 1:
                raise Imprecise('range step')
            return (not self.order(item, cont.a, '', '', '<')) and self.truth(self.order(item, cont.b, '', '', '<'))
        if isinstance(cont, (VIter, VGen)):
            for x in self.iterate(cont):
                if item is x or self.eq(x, item):
                    return True
            return False
        raise Imprecise('in %r' % (cont,))

    def member_big(self, items, item):
        """membership of an abstract string in a large literal table"""
        c = cur()
        k = ('member', key_of(item), tuple(items))
        if k in c.memo:
            return c.memo[k]
        cands = [x for x in items if tri_eq(x, item) is not False]
        if not cands:
            return False
        o = c.choose(2, 'member of table?')
        if o == 0:
            c.memo[k] = True
            if len(cands) == 1:
                unify(item, cands[0])
            else:
                cs = set(cands)
                c.fact('member', lambda env: conc(item, env) in cs)
            return True
        c.memo[k] = False
        cs = set(cands)
        c.fact('not member', lambda env: conc(item, env) not in cs)

        def tri():
            n = norm(item)
            if len(n) == 1 and isinstance(n[0], str):
                return n[0] in cs
            return '' in cs if not n else None
        c.neg(tri)
        return False

    def binop(self, op, a, b):
        if isinstance(a, VObj) and a.cls.is_intenum:
            a = a.attrs['_value_']
        if isinstance(b, VObj) and b.cls.is_intenum:
            b = b.attrs['_value_']
        t = type(op)
        if isinstance(a, VObj) or isinstance(b, VObj):
            nm = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.BitOr: 'or', ast.BitAnd: 'and',
                  ast.Mod: 'mod', ast.FloorDiv: 'floordiv', ast.BitXor: 'xor', ast.Pow: 'pow', ast.LShift: 'lshift', ast.RShift: 'rshift', ast.MatMult: 'matmul'}.get(t)
            NI = self.builtins['NotImplemented']
            if nm:
                if isinstance(a, VObj):
                    f = a.cls.lookup('__%s__' % nm)
                    if f is not None:
                        r = self.call(self.bind_attr(f, a, a.cls), [b])
                        if r is not NI:
                            return r
                if isinstance(b, VObj):
                    f = b.cls.lookup('__r%s__' % nm)
                    if f is not None:
                        r = self.call(self.bind_attr(f, b, b.cls), [a])
                        if r is not NI:
                            return r
            self.type_error('operands', a, b)
        if isinstance(a, Noop) and t is ast.BitOr or isinstance(b, Noop) and t is ast.BitOr:
            return a
        if t is ast.Add:
            if is_str(a) and is_str(b):
                return cat(a, b)
            if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
                return ladd(a, b)
            if isinstance(a, VList) and isinstance(b, VList):
                return VList(a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, (bytes, float, int)) and type(a) == type(b):
                return a + b
            if isinstance(a, OInt) and isinstance(b, int) or isinstance(b, OInt) and isinstance(a, int):
                return self.oint_add(a, b)
            if isinstance(a, (OInt, Lin, int)) and isinstance(b, (OInt, Lin, int)):
                raise Imprecise('int add')
            if isinstance(a, (Opq, Noop)) or isinstance(b, (Opq, Noop)) or isinstance(a, ABytes) or isinstance(b, ABytes):
                raise Imprecise('add opaque')
            for x in (a, b):
                if not (x is None or is_str(x) or isinstance(x, (int, float, bytes, tuple, Lin, OInt, VList, VDict, VSet, VRange, VFunc, VBound, VClass))):
                    raise Imprecise('add %r' % (x,))
            self.raise_('TypeError', 'unsupported operand +')
        if t is ast.Sub:
            if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)):
                return ladd(a, b, -1)
            if isinstance(a, VSet) and isinstance(b, VSet):
                return VSet([x for x in a.items if not self.contains(b, x)])
            if isinstance(a, OInt) and isinstance(b, int):
                return self.oint_add(a, -b)
            if isinstance(a, OInt) or isinstance(b, OInt):
                return OInt('%r-%r' % (a, b))
            raise Imprecise('sub')
        if t is ast.Mult:
            if isinstance(a, int) and isinstance(b, int):
                return a * b
            if isinstance(a, (str, bytes)) and isinstance(b, int):
                return a * b
            if isinstance(b, (str, bytes)) and isinstance(a, int):
                return a * b
            if isinstance(a, VList) and isinstance(b, int):
                return VList(a.items * b)
            if isinstance(a, str) and isinstance(b, Lin) and len(a) == 1:
                m = cmask(a)
                c = cur()
                v = c.fresh('rep', m, 0, None)
                bb = b
                c.fact('repeat', lambda env, v=v: _fixlen(v, env, a * max(0, lval(bb, env))))
                return mk((v,))
            if isinstance(a, AStr) and isinstance(b, int):
                return mk([a] * b)
            if isinstance(b, AStr) and isinstance(a, int):
                return mk([b] * a)
            if isinstance(b, VList) and isinstance(a, int):
                return VList(b.items * a)
            if isinstance(a, tuple) and isinstance(b, int) or isinstance(b, tuple) and isinstance(a, int):
                return a * b
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a * b
            raise Imprecise('mult')
        if t is ast.Mod:
            if isinstance(a, int) and isinstance(b, int):
                if b == 0:
                    self.raise_('ZeroDivisionError', 'modulo by zero')
                return a % b
            if isinstance(a, (OInt, Lin)) and isinstance(b, int):
                k = ('mod', id(a) if isinstance(a, OInt) else repr(a), b)
                c = cur()
                if k not in c.memo:
                    c.memo[k] = (c.choose(b, 'mod'), a)
                return c.memo[k][0]
            if is_str(a):
                return self.models.percent_format(self, a, b)
            raise Imprecise('mod')
        if t is ast.BitOr:
            if isinstance(a, VSet) and isinstance(b, VSet):
                out = VSet(a.items, a.frozen)
                for x in b.items:
                    if not self.contains(out, x):
                        out.items.append(x)
                return out
            if isinstance(a, int) and isinstance(b, int):
                return a | b
            if isinstance(a, VDict) and isinstance(b, VDict):
                d = VDict(a.items)
                for k, v in b.items:
                    d.put(k, v)
                return d
            if isinstance(a, (VClass, Noop)) or isinstance(b, (VClass, Noop)):
                return Noop('Union')
            if isinstance(a, Opq) or isinstance(b, Opq):
                return Opq('or')
        if t is ast.BitAnd:
            if isinstance(a, VSet) and isinstance(b, VSet):
                return VSet([x for x in a.items if self.contains(b, x)], a.frozen)
            if isinstance(a, int) and isinstance(b, int):
                return a & b
        if t is ast.BitXor:
            if isinstance(a, bool) and isinstance(b, bool):
                return a != b
            if isinstance(a, int) and isinstance(b, int):
                return a ^ b
            if isinstance(a, Opq) or isinstance(b, Opq):
                return self.truth(a) != self.truth(b)
            if isinstance(a, VSet) and isinstance(b, VSet):
                return VSet([x for x in a.items if not self.contains(b, x)] + [x for x in b.items if not self.contains(a, x)], a.frozen)
        if t in (ast.FloorDiv, ast.Div, ast.Mod) and isinstance(a, (int, float)) and isinstance(b, (int, float)) and b == 0:
            self.raise_('ZeroDivisionError', 'division by zero')
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and (isinstance(a, float) or isinstance(b, float)):
            import operator as _op
            g = {ast.FloorDiv: _op.floordiv, ast.Div: _op.truediv, ast.Pow: _op.pow}.get(t)
            if g:
                return g(a, b)
        if t is ast.FloorDiv and isinstance(a, int) and isinstance(b, int):
            return a // b
        if t is ast.Div and isinstance(a, int) and isinstance(b, int):
            return a / b
        if t is ast.LShift and isinstance(a, int) and isinstance(b, int):
            return a << b
        if t is ast.RShift and isinstance(a, int) and isinstance(b, int):
            return a >> b
        if t is ast.Pow and isinstance(a, int) and isinstance(b, int):
            return a ** b
        raise Imprecise('binop %s %r %r' % (t.__name__, a, b))

    def oint_add(self, a, b):
        if isinstance(a, int):
            a, b = b, a
        c = cur()
        if b == 0:
            return a
        base, off = getattr(a, 'base', (a, 0))
        k = ('oadd', id(base), off + b)
        if off + b == 0:
            return base
        if k not in c.memo:
            r = OInt('%s%+d' % (base.name, off + b), None if base.lo is None else base.lo + off + b,
                     None if base.hi is None else base.hi + off + b)
            r.base = (base, off + b)
            c.memo[k] = r
        return c.memo[k]

    # ----------------------------------------------------------- attributes
    def bind_attr(self, f, obj, cls):
        if isinstance(f, VFunc):
            return VBound(f, obj)
        if isinstance(f, VBuiltin):
            return VBound(f, obj)
        if isinstance(f, VClassMethod):
            return VBound(f.f, cls)
        if isinstance(f, VStatic):
            return f.f
        if isinstance(f, VProperty):
            if f.fget is None:
                self.raise_('AttributeError', 'unreadable')
            return self.call(f.fget, [obj])
        if isinstance(f, VObj):
            g = f.cls.lookup('__get__')
            if g is not None:
                return self.call(self.bind_attr(g, f, f.cls), [obj, cls])
        return f

    def getattr(self, obj, name, default=_MISSING):
        try:
            return self._getattr(obj, name)
        except AbsRaise as e:
            if default is not _MISSING and e.exc.cls.issub(self.builtins['AttributeError']):
                return default
            raise

    def object_getattribute(self, obj, name):
        cls = obj.cls
        f = cls.lookup(name)
        if f is not None and (isinstance(f, VProperty) or (isinstance(f, VObj) and f.cls.lookup('__get__') is not None
                                                            and f.cls.lookup('__set__') is not None)):
            return self.bind_attr(f, obj, cls)
        if name in obj.attrs:
            return obj.attrs[name]
        if f is not None:
            return self.bind_attr(f, obj, cls)
        if cls.has(name):
            return None
        if name == '__class__':
            return cls
        if name == '__dict__':
            return VAttrDict(obj)
        if name == '__doc__':
            return None
        if name in ('__cause__', '__context__') and cls.issub(self.builtins['BaseException']):
            return None
        if name in ('__traceback__', '__suppress_context__') and cls.issub(self.builtins['BaseException']):
            return Noop('tb') if name == '__traceback__' else False
        m = self.models.object_methods.get(name)
        if m is not None:
            return VBound(m, obj)
        if cls.is_enum and '_value_' in obj.attrs and not name.startswith('__') and (cls.is_intenum or cls.issub(self.builtins['str'])):
            return self._getattr(obj.attrs['_value_'], name)
        if not name.startswith('__') and any(k.module in MODELLED for k in cls.mro):
            raise Imprecise('attribute %s of a modelled class' % name)
        self.raise_('AttributeError', name)

    def _getattr(self, obj, name):
        if not isinstance(name, str):
            return self.getattr_abs(obj, name)
        if isinstance(obj, VObj):
            ga = obj.cls.lookup('__getattribute__')
            try:
                if ga is not None:
                    return self.call(self.bind_attr(ga, obj, obj.cls), [name])
                return self.object_getattribute(obj, name)
            except AbsRaise as e:
                if not e.exc.cls.issub(self.builtins['AttributeError']):
                    raise
                g = obj.cls.lookup('__getattr__')
                if g is None:
                    raise
                return self.call(self.bind_attr(g, obj, obj.cls), [name])
        if isinstance(obj, VClass):
            f = obj.lookup(name)
            if f is None and obj.has(name):
                return None
            if f is not None:
                if isinstance(f, VClassMethod):
                    return VBound(f.f, obj)
                if isinstance(f, VStatic):
                    return f.f
                if isinstance(f, VObj) and f.cls.lookup('__get__') is not None:
                    return self.call(self.bind_attr(f.cls.lookup('__get__'), f, f.cls), [None, obj])
                return f
            if name == '__name__' or name == '__qualname__':
                return obj.name
            if name == '__subclasses__':
                return VBuiltin('__subclasses__', lambda I, a, k: VList(list(obj.subclasses)))
            if name == '__module__':
                return obj.module or ''
            if name == '__mro__':
                return tuple(obj.mro)
            if name == '__bases__':
                return tuple(obj.bases)
            if name == '__doc__':
                return None
            if name == '__new__':
                return VBuiltin('__new__', lambda I, a, k: VObj(a[0]))
            m = self.models.object_methods.get(name)
            if m is not None:
                return m
            if name == '__members__' and obj.is_enum:
                return VDict([(m.attrs['_name_'], m) for m in obj.attrs['__enum_members__']])
            if any(k.module in MODELLED for k in obj.mro) and not name.startswith('__') or self.models.real_class_attr(obj, name):
                raise Imprecise('attribute %s of a modelled class' % name)
            self.raise_('AttributeError', name)
        if isinstance(obj, VModule):
            if name in obj.attrs:
                return obj.attrs[name]
            if name == '__name__':
                return obj.name
            raise Imprecise('module attribute %s.%s' % (obj.name, name))
        if isinstance(obj, VSuper):
            return self.super_getattr(obj, name)
        if isinstance(obj, VFunc):
            if name in obj.attrs:
                return obj.attrs[name]
            if name in ('__name__', '__qualname__'):
                return obj.name
            if name == '__doc__':
                return None
            if name == '__module__':
                return obj.module.name
            if name == '__wrapped__':
                self.raise_('AttributeError', name)
            if name == '__dict__':
                return VAttrDict(obj)
            if name == '__get__':
                return VBuiltin('__get__', lambda I, a, k: VBound(obj, a[0]) if a[0] is not None else obj)
            if name == '__call__':
                return obj
            if hasattr(_sample_function, name):
                raise Imprecise('attribute %s of a function' % name)
            self.raise_('AttributeError', name)
        if isinstance(obj, VBound):
            if name == '__self__':
                return obj.self
            if name == '__func__':
                return obj.func
            if isinstance(obj.func, (VFunc, VObj)):
                return self._getattr(obj.func, name)
            if name == '__name__':
                return obj.func.name
            if hasattr(''.join, name):
                raise Imprecise('attribute %s of a method' % name)
            self.raise_('AttributeError', name)
        if isinstance(obj, VProperty):
            if name == 'setter':
                return VBuiltin('setter', lambda I, a, k: VProperty(obj.fget, a[0], obj.fdel))
            if name == 'deleter':
                return VBuiltin('deleter', lambda I, a, k: VProperty(obj.fget, obj.fset, a[0]))
            if name == 'getter':
                return VBuiltin('getter', lambda I, a, k: VProperty(a[0], obj.fset, obj.fdel))
            if name in ('fget', 'fset', 'fdel'):
                return getattr(obj, name)
            self.raise_('AttributeError', name)
        if isinstance(obj, Noop):
            return Noop(obj.name + '.' + name)
        if isinstance(obj, Opq):
            if name not in obj.attrs:
                h = self.hooks.get('opq_attr')
                v = h(self, obj, name) if h else None
                if v is None:
                    raise Imprecise('attribute %s of opaque %s' % (name, obj.name))
                obj.attrs[name] = v
            return obj.attrs[name]
        r = self.models.native_attr(self, obj, name)
        if r is _MISSING or r is None and name not in ('__doc__', 'start', 'stop', 'step', 'lastgroup', 'gi_frame'):
            if name == '__class__':
                return self.type_of(obj)
            if not isinstance(obj, VObj) and self.models.real_attr(obj, name):
                raise Imprecise('attribute %s of %s' % (name, type(obj).__name__))
            self.raise_('AttributeError', name)
        return r

    def getattr_abs(self, obj, name):
        """getattr with an abstract attribute name: only objects with
        __getattr__; assume the name is not a real attribute"""
        if isinstance(obj, VObj):
            g = obj.cls.lookup('__getattr__')
            if g is not None:
                for k in list(obj.attrs):
                    if tri_eq(k, name) is not False and streq(k, name):
                        return obj.attrs[k]
                return self.call(self.bind_attr(g, obj, obj.cls), [name])
        raise Imprecise('abstract attribute name')

    def super_getattr(self, s, name):
        obj = s.obj
        cls = obj if isinstance(obj, VClass) else obj.cls
        mro = cls.mro
        i = mro.index(s.cls) + 1
        for k in mro[i:]:
            if name in k.attrs:
                f = k.attrs[name]
                if isinstance(obj, VClass):
                    if isinstance(f, VClassMethod):
                        return VBound(f.f, obj)
                    if isinstance(f, VStatic):
                        return f.f
                    return f
                return self.bind_attr(f, obj, cls)
        m = self.models.object_methods.get(name)
        if m is not None:
            return VBound(m, obj) if name != '__new__' else m
        if name == '__new__':
            return VBuiltin('__new__', lambda I, a, k: VObj(a[0]))
        self.raise_('AttributeError', name)

    def setattr(self, obj, name, v):
        if isinstance(obj, VObj):
            f = obj.cls.lookup('__setattr__')
            if f is not None:
                return self.call(self.bind_attr(f, obj, obj.cls), [name, v])
            return self.object_setattr(obj, name, v)
        if isinstance(obj, (VFunc, VClass, VModule)):
            if not isinstance(name, str):
                raise Imprecise('setattr')
            obj.attrs[name] = v
            return None
        if isinstance(obj, (Noop,)):
            return None
        if isinstance(obj, VBound):
            self.raise_('AttributeError', name)
        raise Imprecise('setattr on %r' % (obj,))

    def object_setattr(self, obj, name, v):
        if not isinstance(name, str):
            raise Imprecise('setattr abstract')
        f = obj.cls.lookup(name)
        if isinstance(f, VProperty):
            if f.fset is None:
                self.raise_('AttributeError', name)
            return self.call(f.fset, [obj, v])
        h = self.hooks.get('setattr')
        if h:
            h(self, obj, name, v)
        obj.attrs[name] = v
        return None

    def delattr(self, obj, name):
        if isinstance(obj, VObj):
            f = obj.cls.lookup('__delattr__')
            if f is not None:
                return self.call(self.bind_attr(f, obj, obj.cls), [name])
            return self.object_delattr(obj, name)
        raise Imprecise('delattr')

    def object_delattr(self, obj, name):
        f = obj.cls.lookup(name)
        if isinstance(f, VProperty):
            if f.fdel is None:
                self.raise_('AttributeError', name)
            return self.call(f.fdel, [obj])
        if name not in obj.attrs:
            self.raise_('AttributeError', name)
        del obj.attrs[name]

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        while isinstance(f, VBound):
            if isinstance(f.func, VObj):
                args = [f.self] + list(args)
                f = f.func
                break
            args = [f.self] + list(args)
            f = f.func
        if isinstance(f, VFunc):
            return self.call_func(f, args, kwargs)
        if isinstance(f, VBuiltin):
            return f.fn(self, list(args), kwargs)
        if isinstance(f, VClass):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, VObj):
            c = f.cls.lookup('__call__')
            if c is None:
                self.type_error('not callable', f)
            return self.call(self.bind_attr(c, f, f.cls), args, kwargs)
        if isinstance(f, Noop):
            return Noop(f.name + '()')
        if isinstance(f, VStatic):
            return self.call(f.f, args, kwargs)
        if f is None or is_str(f) or isinstance(f, (int, VList, tuple)):
            self.raise_('TypeError', 'not callable')
        h = self.hooks.get('opq_call')
        if isinstance(f, Opq) and h:
            return h(self, f, args, kwargs)
        raise Imprecise('call of %r' % (f,))

    def instantiate(self, cls, args, kwargs):
        ctor = cls.attrs.get('__native_new__')
        if ctor is None:
            for k in cls.mro:
                if '__native_new__' in k.attrs:
                    ctor = k.attrs['__native_new__']
                    break
        if cls.is_enum:
            for m in cls.attrs['__enum_members__']:
                if self.eq(m.attrs['_value_'], args[0]):
                    return m
            self.raise_('ValueError', 'enum')
        if ctor is not None:
            if cls.issub(self.builtins['BaseException']):
                o = VObj(cls)
                o.attrs['args'] = tuple(args)
                o.attrs['__cause__'] = None
                o.attrs['__context__'] = None
                o.attrs['__traceback__'] = Noop('tb')
            else:
                return ctor(self, cls, args, kwargs)
        else:
            nf = cls.lookup('__new__')
            if nf is not None:
                if isinstance(nf, VStatic):
                    nf = nf.f
                o = self.call(nf, [cls] + list(args), kwargs)
                if not (isinstance(o, VObj) and o.cls.issub(cls)):
                    return o
            else:
                o = VObj(cls)
        init = cls.lookup('__init__')
        if init is not None:
            self.call(self.bind_attr(init, o, cls), args, kwargs)
        return o

    def call_func(self, f, args, kwargs):
        st = self.stubs.get(f.qual)
        if st is not None:
            r = st(self, f, list(args), dict(kwargs))
            if r is not NotImplemented:
                return r
        key = None
        if args and not kwargs and all(type(x) is str for x in args) and is_pure(f):
            key = (id(f.node),) + tuple(args)
            r = self.pure_memo.get(key)
            if r is not None:
                self.called.add(f.qual)
                return r
        env = self.bind_args(f, args, kwargs)
        self.called.add(f.qual)
        if key is not None:
            r = self.run_func(f, env)
            if type(r) is str:
                self.pure_memo[key] = r
            return r
        if isinstance(f.node, ast.Lambda):
            return self.ev(f.node.body, env)
        if f.is_gen:
            g = VGen(None, f)
            g.it = self.run_gen(f, env, g)
            return g
        return self.run_func(f, env)

    def run_func(self, f, env):
        self.depth += 1
        if self.depth > 60:
            self.depth -= 1
            raise Bounded('call depth')
        saved = cur().where
        try:
            it = self.block(f.node.body, env)
            try:
                next(it)
            except StopIteration as e:
                st = e.value
                if st is not None and st[0] == 'return':
                    return st[1]
                return None
            raise Imprecise('yield in unexpected position')
        finally:
            self.depth -= 1
            cur().where = saved

    def run_gen(self, f, env, g):
        st = yield from self.block(f.node.body, env)
        if st is not None and st[0] == 'return':
            return st[1]
        return None

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        env = Env(f.env, f.module, f.node._locals, f)
        v = env.vars
        pos = a.posonlyargs + a.args
        n = len(pos)
        args = list(args)
        kwargs = dict(kwargs)
        for p, x in zip(pos, args):
            v[p.arg] = x
        if len(args) > n:
            if a.vararg is None:
                self.bad_call(f, '%s() too many positional arguments' % f.name)
            v[a.vararg.arg] = tuple(args[n:])
        elif a.vararg is not None:
            v[a.vararg.arg] = ()
        nd = len(f.defaults)
        for i, p in enumerate(pos):
            if i < len(args):
                if p.arg in kwargs and p not in a.posonlyargs:
                    self.bad_call(f, 'multiple values for %s' % p.arg)
                continue
            if p.arg in kwargs and p not in a.posonlyargs:
                v[p.arg] = kwargs.pop(p.arg)
            elif i >= n - nd:
                v[p.arg] = f.defaults[i - (n - nd)]
            else:
                self.bad_call(f, '%s() missing argument %s' % (f.name, p.arg))
        for i, p in enumerate(a.kwonlyargs):
            if p.arg in kwargs:
                v[p.arg] = kwargs.pop(p.arg)
            elif f.kwdefaults[i] is not _MISSING:
                v[p.arg] = f.kwdefaults[i]
            else:
                self.bad_call(f, '%s() missing keyword %s' % (f.name, p.arg))
        if a.kwarg is not None:
            v[a.kwarg.arg] = VDict(list(kwargs.items()))
        elif kwargs:
            self.bad_call(f, '%s() unexpected keyword %s' % (f.name, list(kwargs)[0]))
        return env

    # ----------------------------------------------------------- generators
    def gen_next(self, g, send=None):
        """-> value or raises AbsRaise(StopIteration)"""
        return self.gen_resume(g, lambda: g.it.send(send) if g.started else next(g.it))

    def gen_throw(self, g, exc):
        if g.done:
            raise AbsRaise(exc)
        if not g.started:
            g.done = True
            g.it.close()
            raise AbsRaise(exc)
        return self.gen_resume(g, lambda: g.it.throw(AbsRaise(exc)))

    def gen_resume(self, g, step):
        if g.done:
            self.raise_('StopIteration')
        if g.running:
            self.raise_('ValueError', 'generator already executing')
        g.running = True
        self.depth += 1
        if self.depth > 80:
            self.depth -= 1
            raise Bounded('depth')
        saved = cur().where
        try:
            v = step()
            g.started = True
            return v
        except StopIteration as e:
            g.done = True
            g.result = e.value
            o = VObj(self.builtins['StopIteration'])
            o.attrs['args'] = (e.value,) if e.value is not None else ()
            o.attrs['value'] = e.value
            raise AbsRaise(o)
        except AbsRaise as e:
            g.done = True
            if e.exc.cls.issub(self.builtins['StopIteration']):
                r = VObj(self.builtins['RuntimeError'])
                r.attrs['args'] = ('generator raised StopIteration',)
                r.attrs['__cause__'] = r.attrs['__context__'] = e.exc
                raise AbsRaise(r)
            raise
        except BaseException:
            g.done = True
            raise
        finally:
            g.running = False
            self.depth -= 1
            cur().where = saved

    def gen_close(self, g):
        if g.done:
            return
        if not g.started:
            g.done = True
            g.it.close()
            return
        o = VObj(self.builtins['GeneratorExit'])
        o.attrs['args'] = ()
        try:
            self.gen_throw(g, o)
        except AbsRaise as e:
            if e.exc.cls.issub(self.builtins['GeneratorExit']) or e.exc.cls.issub(self.builtins['StopIteration']):
                return
            raise
        self.raise_('RuntimeError', 'generator ignored GeneratorExit')

    # ------------------------------------------------------------ iteration
    def bad_call(self, f, msg):
        m = getattr(f.module, 'name', f.module)
        if m in MODELLED or m in ('world_src', 'dt_src'):
            raise Imprecise(msg)
        self.raise_('TypeError', msg)

    def type_error(self, msg, *objs):
        """TypeError, unless the operand is a library object that is modelled only in part"""
        for o in objs:
            if isinstance(o, VObj) and any(k.module in MODELLED for k in o.cls.mro) or isinstance(o, (Opq, Noop, VModule)):
                raise Imprecise('%s: %r' % (msg, o))
        self.raise_('TypeError', msg)

    def iterate(self, v):
        """python iterator over an abstract iterable"""
        if isinstance(v, VList):
            def it():
                i = 0
                while i < len(v.items):
                    yield v.items[i]
                    i += 1
            return it()
        if isinstance(v, tuple):
            return iter(v)
        if isinstance(v, VSet):
            return iter(list(v.items))
        if isinstance(v, VDict):
            return iter([e[0] for e in v.items])
        if isinstance(v, VAttrDict):
            return iter(list(v.obj.attrs))
        if isinstance(v, str):
            return iter(v)
        if isinstance(v, AStr):
            return self.iter_str(v)
        if isinstance(v, VRange):
            return self.iter_range(v)
        if isinstance(v, VGen):
            return self.iter_gen(v)
        if isinstance(v, VIter):
            return v.it
        if isinstance(v, bytes):
            return iter(v)
        if isinstance(v, VClass) and v.is_enum:
            return iter(list(v.attrs['__enum_members__']))
        if isinstance(v, VObj):
            f = v.cls.lookup('__iter__')
            if f is not None:
                return self.iterate(self.call(self.bind_attr(f, v, v.cls), []))
            n = v.cls.lookup('__next__')
            if n is not None:
                return self.iter_next(v)
            g = v.cls.lookup('__getitem__')
            if g is not None:
                return self.iter_getitem(v)
            if any(k.module in MODELLED for k in v.cls.mro):
                raise Imprecise('iteration over %s' % v.cls.name)
            self.raise_('TypeError', 'not iterable')
        if v is None or isinstance(v, (int, VFunc)):
            self.raise_('TypeError', 'not iterable')
        raise Imprecise('iteration over %r' % (v,))

    def iter_str(self, v):
        n = norm(v)
        while True:
            h = head(n)
            if h is None:
                return
            ch, n = h
            yield mk((ch,))

    def iter_range(self, r):
        i = r.a
        if isinstance(r.a, int) and isinstance(r.b, int) and isinstance(r.s, int):
            yield from range(r.a, r.b, r.s)
            return
        if r.s not in (1, -1):
            raise Imprecise('range step')
        while True:
            if r.s == 1:
                if not self.truth(self.order(i, r.b, '', '', '<')):
                    return
            elif not self.truth(self.order(r.b, i, '', '', '<')):
                return
            yield i
            i = self.binop(ast.Add(), i, r.s)

    def iter_gen(self, g):
        while True:
            try:
                v = self.gen_next(g)
            except AbsRaise as e:
                if e.exc.cls.issub(self.builtins['StopIteration']):
                    return
                raise
            yield v

    def iter_next(self, v):
        f = v.cls.lookup('__next__')
        while True:
            try:
                x = self.call(self.bind_attr(f, v, v.cls), [])
            except AbsRaise as e:
                if e.exc.cls.issub(self.builtins['StopIteration']):
                    return
                raise
            yield x

    def iter_getitem(self, v):
        f = v.cls.lookup('__getitem__')
        i = 0
        while True:
            try:
                x = self.call(self.bind_attr(f, v, v.cls), [i])
            except AbsRaise as e:
                if e.exc.cls.issub(self.builtins['IndexError']) or e.exc.cls.issub(self.builtins['StopIteration']):
                    return
                raise
            yield x
            i += 1

    def len_(self, v):
        if is_str(v):
            return plen(v)
        if isinstance(v, (VList, VSet, VDict)):
            return len(v.items)
        if isinstance(v, (tuple, bytes)):
            return len(v)
        if isinstance(v, VAttrDict):
            return len(v.obj.attrs)
        if isinstance(v, VObj):
            f = v.cls.lookup('__len__')
            if f is not None:
                return self.call(self.bind_attr(f, v, v.cls), [])
            self.type_error('no len', v)
        if isinstance(v, VRange):
            if all(isinstance(x, int) for x in (v.a, v.b, v.s)):
                return len(range(v.a, v.b, v.s))
            if v.s == 1:
                d = self.binop(ast.Sub(), v.b, v.a)
                if self.truth(self.order(d, 0, '', '', '<')):
                    return 0
                return d
        if isinstance(v, VClass) and v.is_enum:
            return len(v.attrs['__enum_members__'])
        raise Imprecise('len of %r' % (v,))

    def getitem(self, o, k):
        if isinstance(o, VObj):
            f = o.cls.lookup('__getitem__')
            if f is None:
                self.type_error('not subscriptable', o)
            return self.call(self.bind_attr(f, o, o.cls), [k])
        if isinstance(o, VClass):
            f = o.lookup('__class_getitem__')
            if o.is_enum:
                for m in o.attrs['__enum_members__']:
                    if self.eq(m.attrs['_name_'], k):
                        return m
                self.raise_('KeyError', k)
            return o
        if isinstance(o, Noop):
            return o
        if isinstance(o, (VList, tuple)):
            items = o.items if isinstance(o, VList) else o
            if isinstance(k, VSlice):
                r = items[self.pyslice(k, len(items))]
                return VList(r) if isinstance(o, VList) else tuple(r)
            i = self.index_of(k, len(items))
            if not -len(items) <= i < len(items):
                self.raise_('IndexError', 'list index out of range')
            return items[i]
        if is_str(o):
            if isinstance(k, VSlice):
                if k.s not in (None, 1):
                    if isinstance(o, str) and all(x is None or isinstance(x, int) for x in (k.a, k.b, k.s)):
                        return o[k.a:k.b:k.s]
                    raise Imprecise('str slice step')
                return slice_str(o, self.posval(k.a), self.posval(k.b))
            r = index_char(o, self.posval(k))
            if r is None:
                self.raise_('IndexError', 'string index out of range')
            return r
        if isinstance(o, VDict):
            e = o.slot(k)
            if e is None:
                if o.default_factory is not None:
                    v = self.call(o.default_factory, [])
                    o.put(k, v)
                    return v
                self.raise_('KeyError', k)
            return e[1]
        if isinstance(o, VAttrDict):
            if k not in o.obj.attrs:
                self.raise_('KeyError', k)
            return o.obj.attrs[k]
        if isinstance(o, VRange):
            if isinstance(k, VSlice) and all(isinstance(x, int) for x in (o.a, o.b, o.s)):
                r = range(o.a, o.b, o.s)[self.pyslice(k, len(range(o.a, o.b, o.s)))]
                return VRange(r.start, r.stop, r.step)
            if isinstance(k, int):
                r = range(o.a, o.b, o.s)
                if not -len(r) <= k < len(r):
                    self.raise_('IndexError', 'range index')
                return r[k]
            if isinstance(k, OInt) and isinstance(o.b, int):
                r = range(o.a, o.b, o.s)
                i = self.index_of(k, len(r))
                if not -len(r) <= i < len(r):
                    self.raise_('IndexError', 'range index')
                return r[i]
        if isinstance(o, bytes):
            if isinstance(k, VSlice):
                return o[self.pyslice(k, len(o))]
            return o[k]
        h = self.models.native_getitem(self, o, k)
        if h is not _MISSING:
            return h
        if o is None:
            self.raise_('TypeError', 'not subscriptable')
        raise Imprecise('subscript of %r' % (o,))

    def posval(self, v):
        if v is None or isinstance(v, (int, Lin)):
            return v
        raise Imprecise('position %r' % (v,))

    def index_of(self, k, n):
        """concrete index, partitioning an opaque one over a small list"""
        if isinstance(k, bool):
            return int(k)
        if isinstance(k, int):
            return k
        if isinstance(k, VObj) and k.cls.is_intenum:
            return k.attrs['_value_']
        if isinstance(k, VObj):
            f = k.cls.lookup('__index__')
            if f is not None:
                return self.index_of(self.call(self.bind_attr(f, k, k.cls), []), n)
            self.raise_('TypeError', 'indices must be integers')
        if isinstance(k, OInt):
            for i in list(range(-n, n)) + []:
                if self.oint_cmp(k, i, '=='):
                    return i
            return n + 1
        if isinstance(k, Lin):
            for i in range(-n, n):
                if lzero(ladd(k, i, -1)):
                    return i
            return n + 1
        if is_str(k) or k is None or isinstance(k, (VList, tuple)):
            self.raise_('TypeError', 'indices must be integers')
        raise Imprecise('index %r' % (k,))

    def pyslice(self, s, n):
        def conv(x):
            if x is None or isinstance(x, int):
                return x
            if isinstance(x, (OInt, Lin)):
                return self.index_of(x, n + 1)
            raise Imprecise('slice bound')
        return slice(conv(s.a), conv(s.b), conv(s.s))

    def setitem(self, o, k, v):
        if isinstance(o, VObj):
            f = o.cls.lookup('__setitem__')
            if f is None:
                self.type_error('no item assignment', o)
            return self.call(self.bind_attr(f, o, o.cls), [k, v])
        if isinstance(o, VList):
            if isinstance(k, VSlice):
                vals = list(self.iterate(v))
                try:
                    o.items[self.pyslice(k, len(o.items))] = vals
                except ValueError:
                    self.raise_('ValueError', 'slice size')
                return
            i = self.index_of(k, len(o.items))
            if not -len(o.items) <= i < len(o.items):
                self.raise_('IndexError', 'assignment index out of range')
            o.items[i] = v
            return
        if isinstance(o, VDict):
            o.put(k, v)
            return
        if isinstance(o, VAttrDict):
            if not isinstance(k, str):
                raise Imprecise('attr dict')
            o.obj.attrs[k] = v
            return
        if isinstance(o, tuple) or is_str(o):
            self.raise_('TypeError', 'no item assignment')
        if self.models.native_setitem(self, o, k, v):
            return
        raise Imprecise('setitem on %r' % (o,))

    def delitem(self, o, k):
        if isinstance(o, VObj):
            f = o.cls.lookup('__delitem__')
            if f is None:
                self.type_error('no item deletion', o)
            return self.call(self.bind_attr(f, o, o.cls), [k])
        if isinstance(o, VList):
            if isinstance(k, VSlice):
                del o.items[self.pyslice(k, len(o.items))]
                return
            i = self.index_of(k, len(o.items))
            if not -len(o.items) <= i < len(o.items):
                self.raise_('IndexError', 'deletion index')
            del o.items[i]
            return
        if isinstance(o, VDict):
            if not o.drop(k):
                self.raise_('KeyError', k)
            return
        if isinstance(o, VAttrDict):
            if k not in o.obj.attrs:
                self.raise_('KeyError', k)
            del o.obj.attrs[k]
            return
        if self.models.native_delitem(self, o, k):
            return
        raise Imprecise('delitem on %r' % (o,))

    # ----------------------------------------------------------- statements
    def block(self, stmts, env):
        for s in stmts:
            st = yield from self.stmt(s, env)
            if st is not None:
                return st
        return None

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Bounded('step budget')
        cur().where = (env.module.name, s.lineno)
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Yield):
                yield (self.ev(s.value.value, env) if s.value.value else None)
                return None
            if isinstance(s.value, ast.YieldFrom):
                yield from self.yield_from(self.ev(s.value.value, env))
                return None
            self.ev(s.value, env)
            return None
        if t is ast.Assign:
            v = s.value
            if isinstance(v, ast.Yield):
                val = yield (self.ev(v.value, env) if v.value else None)
            elif isinstance(v, ast.YieldFrom):
                val = yield from self.yield_from(self.ev(v.value, env))
            else:
                val = self.ev(v, env)
            for tg in s.targets:
                self.assign(tg, val, env)
            return None
        if t is ast.AugAssign:
            self.augassign(s, env)
            return None
        if t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env), env)
            if env.cls_scope and isinstance(s.target, ast.Name):
                env.vars.setdefault('__annotations_order__', []).append(s.target.id)
            return None
        if t is ast.Return:
            v = s.value
            if isinstance(v, ast.Yield):
                val = yield (self.ev(v.value, env) if v.value else None)
                return ('return', val)
            if isinstance(v, ast.YieldFrom):
                val = yield from self.yield_from(self.ev(v.value, env))
                return ('return', val)
            return ('return', self.ev(v, env) if v is not None else None)
        if t is ast.If:
            if self.truth(self.ev(s.test, env)):
                return (yield from self.block(s.body, env))
            return (yield from self.block(s.orelse, env))
        if t is ast.While:
            return (yield from self.while_(s, env))
        if t is ast.For:
            return (yield from self.for_(s, env))
        if t is ast.With:
            return (yield from self.with_(s.items, s.body, env))
        if t is ast.Try:
            return (yield from self.try_(s, env))
        if t is ast.Raise:
            self.raise_stmt(s, env)
        if t is ast.FunctionDef:
            f = self.make_func(s, env)
            for d in reversed(s.decorator_list):
                f = self.call(self.ev(d, env), [f])
            self.store(s.name, f, env)
            return None
        if t is ast.ClassDef:
            self.classdef(s, env)
            return None
        if t in (ast.Import, ast.ImportFrom):
            self.import_(s, env)
            return None
        if t is ast.Pass:
            return None
        if t is ast.Break:
            return ('break',)
        if t is ast.Continue:
            return ('continue',)
        if t is ast.Delete:
            for tg in s.targets:
                self.delete(tg, env)
            return None
        if t is ast.Global:
            env.globals_ = (env.globals_ or set()) | set(s.names)
            return None
        if t is ast.Nonlocal:
            env.nonlocals = (env.nonlocals or set()) | set(s.names)
            return None
        if t is ast.Assert:
            if not self.truth(self.ev(s.test, env)):
                raise AbsRaise(self.call(self.builtins['AssertionError'], [self.ev(s.msg, env)] if s.msg is not None else []))
            return None
        if t is ast.Match:
            return (yield from self.match_(s, env))
        raise Imprecise('statement %s' % t.__name__)

    def yield_from(self, v):
        if isinstance(v, VGen):
            # delegation incl. exceptions thrown in
            send = None
            try:
                x = self.gen_next(v)
            except AbsRaise as e:
                if e.exc.cls.issub(self.builtins['StopIteration']):
                    return e.exc.attrs.get('value')
                raise
            while True:
                try:
                    send = yield x
                except AbsRaise as e:
                    try:
                        x = self.gen_throw(v, e.exc)
                    except AbsRaise as e2:
                        if e2.exc.cls.issub(self.builtins['StopIteration']) and v.done and e2.exc is not e.exc:
                            return e2.exc.attrs.get('value')
                        raise
                    continue
                try:
                    x = self.gen_next(v, send)
                except AbsRaise as e:
                    if e.exc.cls.issub(self.builtins['StopIteration']):
                        return e.exc.attrs.get('value')
                    raise
        for x in self.iterate(v):
            yield x
        return None

    def while_(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > self.hooks.get('loop_cap', 60):
                raise Bounded('loop')
            st = yield from self.block(s.body, env)
            if st is not None:
                if st[0] == 'break':
                    return None
                if st[0] == 'return':
                    return st
            cur().where = (env.module.name, s.lineno)
        return (yield from self.block(s.orelse, env))

    def for_(self, s, env):
        it = self.iterate(self.ev(s.iter, env))
        n = 0
        for v in it:
            n += 1
            if n > self.hooks.get('loop_cap', 60) * 20:
                raise Bounded('loop')
            self.assign(s.target, v, env)
            st = yield from self.block(s.body, env)
            if st is not None:
                if st[0] == 'break':
                    return None
                if st[0] == 'return':
                    return st
        return (yield from self.block(s.orelse, env))

    def with_(self, items, body, env):
        if not items:
            return (yield from self.block(body, env))
        item = items[0]
        mgr = self.ev(item.context_expr, env)
        if isinstance(mgr, Noop):
            raise Imprecise('with noop')
        enter = self.getattr(mgr, '__enter__')
        exit_ = self.getattr(mgr, '__exit__')
        val = self.call(enter, [])
        try:
            if item.optional_vars is not None:
                self.assign(item.optional_vars, val, env)
            st = yield from self.with_(items[1:], body, env)
        except AbsRaise as e:
            self.exc_stack.append(e.exc)
            try:
                r = self.call(exit_, [e.exc.cls, e.exc, Noop('tb')])
            finally:
                self.exc_stack.pop()
            if self.truth(r):
                return None
            raise
        self.call(exit_, [None, None, None])
        return st

    def try_(self, s, env):
        try:
            st = yield from self.try_inner(s, env)
        except AbsRaise as e:
            if s.finalbody:
                self.exc_stack.append(e.exc)
                try:
                    st2 = yield from self.block(s.finalbody, env)
                finally:
                    self.exc_stack.pop()
                if st2 is not None:
                    return st2
            raise
        if s.finalbody:
            st2 = yield from self.block(s.finalbody, env)
            if st2 is not None:
                return st2
        return st

    def try_inner(self, s, env):
        try:
            st = yield from self.block(s.body, env)
        except AbsRaise as e:
            exc = e.exc
            for h in s.handlers:
                if h.type is None or self.exc_match(exc, self.ev(h.type, env)):
                    if h.name:
                        self.store(h.name, exc, env)
                    self.exc_stack.append(exc)
                    try:
                        r = yield from self.block(h.body, env)
                    except AbsRaise as e2:
                        if e2.exc is not exc and e2.exc.attrs.get('__context__') is None:
                            e2.exc.attrs['__context__'] = exc
                        raise
                    finally:
                        self.exc_stack.pop()
                        if h.name:
                            env.vars.pop(h.name, None)
                    return r
            raise
        if st is None:
            st = yield from self.block(s.orelse, env)
        return st

    def exc_match(self, exc, cls):
        if isinstance(cls, tuple):
            return any(self.exc_match(exc, c) for c in cls)
        if not isinstance(cls, VClass):
            raise Imprecise('except %r' % (cls,))
        return exc.cls.issub(cls)

    def raise_stmt(self, s, env):
        if s.exc is None:
            if not self.exc_stack:
                self.raise_('RuntimeError', 'no active exception')
            raise AbsRaise(self.exc_stack[-1])
        v = self.ev(s.exc, env)
        if isinstance(v, VClass):
            v = self.call(v, [])
        if not isinstance(v, VObj):
            raise Imprecise('raise %r' % (v,))
        if s.cause is not None:
            v.attrs['__cause__'] = self.ev(s.cause, env)
        raise AbsRaise(v)

    def match_(self, s, env):
        subj = self.ev(s.subject, env)
        for c in s.cases:
            b = {}
            if self.pat(c.pattern, subj, env, b):
                for k, v in b.items():
                    self.store(k, v, env)
                if c.guard is None or self.truth(self.ev(c.guard, env)):
                    return (yield from self.block(c.body, env))
        return None

    def pat(self, p, v, env, b):
        t = type(p)
        if t is ast.MatchValue:
            return self.eq(v, self.ev(p.value, env))
        if t is ast.MatchSingleton:
            return self.is_(v, p.value)
        if t is ast.MatchAs:
            if p.pattern is not None and not self.pat(p.pattern, v, env, b):
                return False
            if p.name:
                b[p.name] = v
            return True
        if t is ast.MatchOr:
            return any(self.pat(q, v, env, b) for q in p.patterns)
        if t is ast.MatchMapping:
            if not isinstance(v, (VDict, VAttrDict)):
                if isinstance(v, VObj):
                    raise Imprecise('mapping pattern on an object')
                return False
            if p.rest:
                raise Imprecise('rest of a mapping pattern')
            for k, q in zip(p.keys, p.patterns):
                key = self.ev(k, env)
                if not self.contains(v, key) or not self.pat(q, self.getitem(v, key), env, b):
                    return False
            return True
        if t is ast.MatchClass:
            cls = self.ev(p.cls, env)
            if not self.isinstance_(v, cls):
                return False
            if p.patterns:
                if isinstance(cls, VClass) and cls.name in ('bool', 'bytes', 'dict', 'float', 'frozenset', 'int', 'list', 'set', 'str', 'tuple') and len(p.patterns) == 1:
                    if not self.pat(p.patterns[0], v, env, b):
                        return False
                else:
                    ma = cls.lookup('__match_args__') if isinstance(cls, VClass) else None
                    if not isinstance(ma, tuple) or len(ma) < len(p.patterns):
                        raise Imprecise('positional class pattern')
                    for n, q in zip(ma, p.patterns):
                        if not self.pat(q, self.getattr(v, n), env, b):
                            return False
            for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.pat(q, self.getattr(v, n), env, b):
                    return False
            return True
        if t is ast.MatchSequence:
            if not isinstance(v, (tuple, VList)):
                return False
            items = list(v) if isinstance(v, tuple) else v.items
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not star:
                return len(items) == len(p.patterns) and all(self.pat(q, x, env, b) for q, x in zip(p.patterns, items))
            i = star[0]
            tail = len(p.patterns) - i - 1
            if len(items) < i + tail:
                return False
            if not all(self.pat(q, x, env, b) for q, x in zip(p.patterns[:i], items[:i])):
                return False
            if p.patterns[i].name:
                b[p.patterns[i].name] = VList(items[i:len(items) - tail])
            return all(self.pat(q, x, env, b) for q, x in zip(p.patterns[i + 1:], items[len(items) - tail:]))
        raise Imprecise('pattern')

    def make_func(self, node, env):
        a = node.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = [_MISSING if d is None else self.ev(d, env) for d in a.kw_defaults]
        name = getattr(node, 'name', '<lambda>')
        e = env
        while e is not None and e.cls_scope:
            e = e.parent
        if env.cls_scope:
            qual = env.vars['__qualname__'] + '.' + name
        elif env.func is not None:
            qual = env.func.qual + '.<locals>.' + name
        else:
            qual = env.module.name + '.' + name
        return VFunc(name, node, e, defaults, kwd, env.module, qual)

    def classdef(self, s, env):
        bases = []
        nt = False
        for b in s.bases:
            v = self.ev(b, env)
            if isinstance(v, VClass):
                bases.append(v)
            elif isinstance(v, Noop):
                if v.name == 'NamedTuple':
                    nt = True
                elif v.name in ('TypedDict',):
                    raise Imprecise('base class %s' % v.name)
            else:
                raise Imprecise('base class %r' % (v,))
        if not bases:
            bases = [self.builtins['object']]
        cenv = Env(env, env.module, None, env.func, cls_scope=True)
        outer = env.vars.get('__qualname__') if env.cls_scope else (env.func.qual + '.<locals>' if env.func else env.module.name)
        cenv.vars['__qualname__'] = outer + '.' + s.name
        it = self.block(s.body, cenv)
        try:
            next(it)
            raise Imprecise('yield in class')
        except StopIteration:
            pass
        attrs = dict(cenv.vars)
        order = attrs.pop('__annotations_order__', [])
        attrs.pop('__qualname__', None)
        cls = VClass(s.name, bases, attrs, env.module.name)
        cls.qual = outer + '.' + s.name
        attrs['__fields__'] = order
        for f in attrs.values():
            g = f
            while True:
                if isinstance(g, (VStatic, VClassMethod)):
                    g = g.f
                    continue
                break
            if isinstance(g, VFunc) and g.cls is None:
                g.cls = cls
            elif isinstance(g, VProperty):
                for h in (g.fget, g.fset, g.fdel):
                    if isinstance(h, VFunc) and h.cls is None:
                        h.cls = cls
            elif isinstance(g, VObj):
                for h in g.attrs.values():
                    if isinstance(h, VFunc) and h.cls is None:
                        h.cls = cls
        if cls.is_enum:
            self.models.finish_enum(self, cls, s)
        if nt:
            fs = list(order)
            ds = {n: attrs.pop(n) for n in fs if n in attrs}
            cls = self.models.make_namedtuple(self, s.name, fs, ds, attrs)
            for f in attrs.values():
                if isinstance(f, VFunc):
                    f.cls = cls
        kws = {k.arg: self.ev(k.value, env) for k in s.keywords if k.arg and k.arg != 'metaclass'}
        for k in cls.mro[1:]:
            f = k.attrs.get('__init_subclass__')
            if f is not None:
                f = f.f if isinstance(f, VClassMethod) else f
                self.call(f, [cls], kws)
                break
        v = cls
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env), [v])
        self.store(s.name, v, env)

    def import_(self, s, env):
        if isinstance(s, ast.Import):
            for al in s.names:
                m = self.load_module(al.name)
                if al.asname:
                    self.store(al.asname, m, env)
                else:
                    self.store(al.name.split('.')[0], self.load_module(al.name.split('.')[0]), env)
            return
        if s.level:
            base = env.module.name.rsplit('.', s.level)[0]
            name = base + ('.' + s.module if s.module else '')
        else:
            name = s.module
        m = self.load_module(name)
        for al in s.names:
            if al.name == '*':
                if name.startswith('specfile'):
                    al2 = m.attrs.get('__all__')
                    names = [x for x in al2.items] if isinstance(al2, VList) else [n for n in m.attrs if not n.startswith('_')]
                    for n in names:
                        self.store(n, m.attrs[n], env)
                else:
                    for n, v in m.attrs.items():
                        if not n.startswith('_'):
                            self.store(n, v, env)
                    env.module.attrs['__star__'] = True
                continue
            if al.name in m.attrs:
                v = m.attrs[al.name]
            else:
                try:
                    v = self.load_module(name + '.' + al.name)
                except Imprecise:
                    v = Opq('%s.%s' % (name, al.name), 'obj')
            self.store(al.asname or al.name, v, env)

    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name == 'specfile' or name.startswith('specfile.'):
            path = os.path.join(REPO, *name.split('.'))
            fn = path + '.py' if os.path.exists(path + '.py') else os.path.join(path, '__init__.py')
            if not os.path.exists(fn):
                raise Imprecise('module %s not found' % name)
            tree = parse_file(fn)
            m = VModule(name)
            self.modules[name] = m
            m.attrs['__name__'] = name
            if name == 'specfile':
                return m      # package __init__ only re-exports
            env = Env(None, m)
            env.vars = m.attrs
            it = self.block(tree.body, env)
            try:
                next(it)
            except StopIteration:
                pass
            for (mn, n), v in self.overrides.items():
                if mn == name and n in m.attrs:
                    m.attrs[n] = v(self, m.attrs[n])
            return m
        m = self.models.std_module(self, name)
        if m is None:
            m = VModule(name, {})
        self.modules[name] = m
        if '.' in name:
            parent = self.load_module(name.rsplit('.', 1)[0])
            parent.attrs[name.rsplit('.', 1)[1]] = m
        return m

    # ---------------------------------------------------------- assignments
    def store(self, name, v, env):
        if env.globals_ and name in env.globals_:
            env.module.attrs[name] = v
            return
        if env.nonlocals and name in env.nonlocals:
            e = env.parent
            while e is not None:
                if name in e.vars or (e.locals and name in e.locals):
                    e.vars[name] = v
                    return
                e = e.parent
            raise Imprecise('nonlocal')
        env.vars[name] = v

    def assign(self, t, v, env):
        k = type(t)
        if k is ast.Name:
            self.store(t.id, v, env)
        elif k is ast.Attribute:
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif k is ast.Subscript:
            self.setitem(self.ev(t.value, env), self.ev(t.slice, env), v)
        elif k in (ast.Tuple, ast.List):
            vals = list(v) if isinstance(v, tuple) else list(v.items) if isinstance(v, VList) else list(self.iterate(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                tail = len(t.elts) - i - 1
                if len(vals) < i + tail:
                    self.raise_('ValueError', 'not enough values to unpack')
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, VList(vals[i:len(vals) - tail]), env)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - tail:]):
                    self.assign(e, x, env)
            else:
                if len(vals) != len(t.elts):
                    self.raise_('ValueError', 'unpack %d into %d' % (len(vals), len(t.elts)))
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, env)
        elif k is ast.Starred:
            self.assign(t.value, v, env)
        else:
            raise Imprecise('assign target')

    def augassign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            old = self.name(t.id, env)
            self.store(t.id, self.inplace(s.op, old, self.ev(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(s.op, old, self.ev(s.value, env)))
        else:
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            old = self.getitem(o, k)
            self.setitem(o, k, self.inplace(s.op, old, self.ev(s.value, env)))

    def inplace(self, op, a, b):
        if isinstance(a, VList) and isinstance(op, ast.Add):
            a.items.extend(self.iterate(b))
            return a
        if isinstance(a, VSet) and isinstance(op, ast.BitOr):
            for x in self.iterate(b):
                if not self.contains(a, x):
                    a.items.append(x)
            return a
        if isinstance(a, VObj):
            nm = {ast.Add: '__iadd__', ast.Mult: '__imul__', ast.BitOr: '__ior__'}.get(type(op))
            f = a.cls.lookup(nm) if nm else None
            if f is not None:
                return self.call(self.bind_attr(f, a, a.cls), [b])
        return self.binop(op, a, b)

    def delete(self, t, env):
        if isinstance(t, ast.Name):
            if t.id in env.vars:
                del env.vars[t.id]
            else:
                self.raise_('UnboundLocalError', t.id)
        elif isinstance(t, ast.Attribute):
            self.delattr(self.ev(t.value, env), t.attr)
        elif isinstance(t, ast.Subscript):
            self.delitem(self.ev(t.value, env), self.ev(t.slice, env))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                self.delete(e, env)

    # ---------------------------------------------------------- expressions
    def name(self, n, env):
        e = env
        first = True
        while e is not None:
            if n in e.vars and (first or not e.cls_scope):
                return e.vars[n]
            if first and e.locals is not None and n in e.locals and not (e.nonlocals and n in e.nonlocals) and not (e.globals_ and n in e.globals_):
                self.raise_('UnboundLocalError', n)
            first = False
            e = e.parent
        m = env.module.attrs
        if n in m:
            return m[n]
        if n in self.builtins:
            return self.builtins[n]
        if n == '__name__':
            return env.module.name
        if n == '__file__':
            return env.module.name
        if hasattr(pyb, n) or not env.module.name.startswith('specfile'):
            raise Imprecise('builtin %s' % n)
        self.raise_('NameError', n)

    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Imprecise('expression %s' % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        return self.name(e.id, env)

    def e_Attribute(self, e, env):
        return self._getattr(self.ev(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(o, Noop):
            return o
        return self.getitem(o, self.ev(e.slice, env))

    def e_Slice(self, e, env):
        f = lambda x: None if x is None else self.ev(x, env)
        return VSlice(f(e.lower), f(e.upper), f(e.step))

    def e_BoolOp(self, e, env):
        v = None
        for x in e.values:
            v = self.ev(x, env)
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return v
            if isinstance(e.op, ast.Or) and t:
                return v
        return v

    def e_BinOp(self, e, env):
        return self.binop(e.op, self.ev(e.left, env), self.ev(e.right, env))

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, float)):
                return -v
            if isinstance(v, Lin):
                return ladd(0, v, -1)
            if isinstance(v, OInt):
                return OInt('-' + v.name, None if v.hi is None else -v.hi, None if v.lo is None else -v.lo)
        if isinstance(e.op, ast.UAdd) and not isinstance(v, VObj):
            return v
        if isinstance(e.op, ast.Invert) and isinstance(v, int):
            return ~v
        if isinstance(v, VObj):
            f = v.cls.lookup({ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(e.op)])
            if f is not None:
                return self.call(self.bind_attr(f, v, v.cls), [])
        raise Imprecise('unary')

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        r = True
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, env)
            r = self.compare(op, left, right)
            if len(e.ops) > 1 and not self.truth(r):
                return r
            left = right
        return r

    def e_IfExp(self, e, env):
        if self.truth(self.ev(e.test, env)):
            return self.ev(e.body, env)
        return self.ev(e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        t = env
        while getattr(t, 'cls_scope', False) is None:
            t = t.parent
        # comprehension scopes are transparent
        while t.locals is COMP:
            t = t.parent
        self.store(e.target.id, v, t)
        return v

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return VList(self.elts(e.elts, env))

    def e_Set(self, e, env):
        s = VSet()
        for x in self.elts(e.elts, env):
            if hkey(x) is not None and len(s.items) > 8:
                s.items.append(x)
            elif not self.contains(s, x):
                s.items.append(x)
        return s

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = VDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.ev(v, env)
                if isinstance(o, VDict):
                    for a, b in o.items:
                        d.put(a, b)
                else:
                    raise Imprecise('dict unpack')
            else:
                kk = self.ev(k, env)
                d.put(kk, self.ev(v, env))
        return d

    def comp(self, gens, env, emit):
        def rec(i, env):
            if i == len(gens):
                yield emit(env)
                return
            g = gens[i]
            it = self.iterate(first if i == 0 else self.ev(g.iter, env))
            for v in it:
                self.assign(g.target, v, env)
                if all(self.truth(self.ev(c, env)) for c in g.ifs):
                    yield from rec(i + 1, env)
        first = self.ev(gens[0].iter, env)
        cenv = Env(env, env.module, COMP, env.func)
        return rec(0, cenv)

    def e_ListComp(self, e, env):
        r = getattr(e, '_pure', None)
        if r is None:
            r = False
            if len(e.generators) == 1 and isinstance(e.generators[0].iter, ast.Name) and isinstance(e.generators[0].target, ast.Name) and not e.generators[0].ifs:
                r = _pure_scan([e.elt]) or False
            e._pure = r
        if r:
            g = e.generators[0]
            src = _resolve(env, g.iter.id)
            ok = isinstance(src, (VSet, VList)) and all(type(x) is str for x in src.items) and (g.iter.id not in env.vars)
            for c in r[0]:
                fn = _resolve(env, c)
                ok = ok and isinstance(fn, VFunc) and is_pure(fn)
            for n in r[1]:
                ok = ok and (n == g.target.id or n in env.module.attrs and n not in env.vars)
            if ok:
                key = (id(e), tuple(src.items))
                got = self.pure_memo.get(key)
                if got is None:
                    got = list(self.comp(e.generators, env, lambda x: self.ev(e.elt, x)))
                    if not all(type(x) is str or type(x).__name__ == "VPattern" for x in got):
                        return VList(got)
                    self.pure_memo[key] = got
                return VList(list(got))
        return VList(list(self.comp(e.generators, env, lambda x: self.ev(e.elt, x))))

    def e_SetComp(self, e, env):
        s = VSet()
        for x in self.comp(e.generators, env, lambda x: self.ev(e.elt, x)):
            if not self.contains(s, x):
                s.items.append(x)
        return s

    def e_DictComp(self, e, env):
        d = VDict()
        for k, v in self.comp(e.generators, env, lambda x: (self.ev(e.key, x), self.ev(e.value, x))):
            d.put(k, v)
        return d

    def e_GeneratorExp(self, e, env):
        return VIter(self.comp(e.generators, env, lambda x: self.ev(e.elt, x)), 'generator')

    def e_Lambda(self, e, env):
        return self.make_func(e, env)

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                out.append(self.e_FormattedValue(v, env))
        return cat(*out)

    def e_FormattedValue(self, v, env):
        x = self.ev(v.value, env)
        if v.conversion == ord('r'):
            x = self.models.repr_(self, x)
        elif v.conversion == ord('s'):
            x = self.models.str_(self, x)
        spec = self.e_JoinedStr(v.format_spec, env) if v.format_spec is not None else ''
        return self.models.format_(self, x, spec)

    def e_Starred(self, e, env):
        raise Imprecise('starred')

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.make_super(env)
        f = self.ev(e.func, env)
        args = self.elts(e.args, env) if e.args else []
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                o = self.ev(k.value, env)
                if isinstance(o, VDict):
                    for a, b in o.items:
                        if not isinstance(a, str):
                            raise Imprecise('kwargs')
                        kwargs[a] = b
                else:
                    raise Imprecise('kwargs')
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        where = cur().where
        r = self.call(f, args, kwargs)
        cur().where = where
        return r

    def make_super(self, env):
        e = env
        while e is not None and (e.func is None or e.func.cls is None):
            e = e.parent
        if e is None:
            raise Imprecise('super()')
        f = e.func
        while e.parent is not None and e.parent.func is f:
            e = e.parent
        a = f.node.args
        first = (a.posonlyargs + a.args)[0].arg
        return VSuper(f.cls, e.vars[first])

    def e_Yield(self, e, env):
        raise Imprecise('yield inside an expression')

    def e_Await(self, e, env):
        raise Imprecise('await')


COMP = frozenset()


def _fixlen(v, env, val):
    if v.bind is None:
        if v not in env:
            env[v] = val
        return env[v] == val
    return conc((v,), env) == val


_trees = {}


def parse_file(fn):
    if fn not in _trees:
        with open(fn, encoding='utf8') as f:
            src = f.read()
        _trees[fn] = ast.parse(src, fn)
    return _trees[fn]
