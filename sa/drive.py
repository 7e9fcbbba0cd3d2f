"""Exploration of the abstract state space: trace partitioning driver."""
import os
import random
import sys
import threading
import time

from . import dom, interp, world
from .dom import Ctx, set_ctx, Infeasible, Bounded, Imprecise, witness, cur
from .interp import *

sys.setrecursionlimit(20000)
threading.stack_size(512 * 1024 * 1024)


def in_big_stack(fn, *a, **k):
    out = {}

    def run():
        try:
            out['v'] = fn(*a, **k)
        except BaseException as e:      # noqa
            out['e'] = e
    t = threading.Thread(target=run)
    t.start()
    t.join()
    if 'e' in out:
        raise out['e']
    return out['v']


# ------------------------------------------------------------ state snapshot

def snapshot(I):
    """shallow copies of every mutable structure reachable from the modules"""
    seen = {}
    saved = []
    todo = list(I.modules.values())
    todo.append(I.builtins)
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        if isinstance(v, (VModule, VClass, VObj)):
            seen[id(v)] = v
            saved.append((v, 'attrs', dict(v.attrs)))
            todo.extend(v.attrs.values())
            if isinstance(v, VObj):
                todo.append(v.cls)
            if isinstance(v, VClass):
                todo.extend(v.bases)
        elif isinstance(v, VFunc):
            seen[id(v)] = v
            saved.append((v, 'attrs', dict(v.attrs)))
            todo.extend(v.attrs.values())
            todo.extend(x for x in v.defaults if x is not None)
            todo.extend(x for x in (v.kwdefaults.values() if isinstance(v.kwdefaults, dict) else v.kwdefaults or []) if x is not None)
            e = v.env
            while e is not None and id(e) not in seen:
                seen[id(e)] = e
                if e.module is None or e.vars is not e.module.attrs:
                    saved.append((e, 'vars', dict(e.vars)))
                    todo.extend(e.vars.values())
                e = e.parent
        elif isinstance(v, (VList, VSet)):
            seen[id(v)] = v
            saved.append((v, 'items', list(v.items)))
            todo.extend(v.items)
        elif isinstance(v, VDict):
            seen[id(v)] = v
            saved.append((v, 'dict', [list(e) for e in v.items]))
            for e in v.items:
                todo.extend(e)
        elif isinstance(v, dict):
            seen[id(v)] = v
            todo.extend(v.values())
        elif isinstance(v, (tuple, list)):
            seen[id(v)] = v
            todo.extend(v)
        elif isinstance(v, VBound):
            todo.extend((v.func, v.self))
        elif isinstance(v, (VStatic, VClassMethod)):
            todo.append(v.f)
        elif isinstance(v, VProperty):
            todo.extend(x for x in (v.fget, v.fset, v.fdel) if x is not None)
    return saved


def restore(saved):
    for v, kind, val in saved:
        if kind == 'dict':
            v.items = [list(e) for e in val]
            v.fast = {}
            for e in v.items:
                h = interp.hkey(e[0])
                if h is not None:
                    v.fast[h] = e
        elif kind == 'vars':
            v.vars.clear()
            v.vars.update(val)
        elif kind == 'items':
            v.items[:] = val
        else:
            v.attrs.clear()
            v.attrs.update(val)


MODULES = ('exceptions', 'formatter', 'constants', 'types', 'value_parser', 'utils', 'context_management', 'macros', 'conditions',
           'macro_definitions', 'options', 'sections', 'tags', 'changelog', 'prep', 'sourcelist', 'sources', 'spec_parser', 'specfile')


def fresh_interp(modules=MODULES, stubs=None, overrides=None, hooks=None):
    set_ctx(Ctx())
    I = Interp()
    world.reset(I)
    I.stubs.update(stubs or {})
    I.overrides.update(overrides or {})
    I.hooks.update(hooks or {})
    for m in modules:
        I.load_module('specfile.' + m)
    I.steps = 0
    I.saved = snapshot(I)
    return I


class Violation(Exception):
    """a definite property violation on the current path"""

    def __init__(self, key, msg, differs=None, show=None):
        self.key, self.msg, self.differs, self.show = key, msg, differs, show


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.decided = 0
        self.infeasible = 0
        self.bounded = 0
        self.undecided = 0
        self.unconfirmed = 0
        self.why = {}
        self.violations = {}
        self.called = set()
        self.exhausted = False
        self.wall = 0
        self.samples = []

    def pack(self):
        d = dict(self.__dict__)
        d['called'] = sorted(self.called)
        return d


def start(I, ctx, max_steps):
    set_ctx(ctx)
    restore(I.saved)
    world.reset(I)
    I.steps = 0
    I.max_steps = max_steps
    I.depth = 0
    I.called = set()
    I.exc_stack = []
    world.use_env(I)


def confirm_replay(I, scenario, ctx, env, key, max_steps):
    """Push the witness (a singleton abstract state) through the transfer
    functions again; the violation must reappear."""
    roots = [dom.conc(AStr((v,)), env) for v in ctx.roots]
    c2 = Ctx([])
    c2.replay = (list(ctx.picks), roots)
    called = I.called
    start(I, c2, max_steps * 4)
    try:
        scenario(I)
        return None
    except Violation as v:
        if v.key != key:
            return None
        env2 = {'rnd': random.Random(1), 'chars': '', 'bias': 0.9}
        if v.differs is not None and not v.differs(env2):
            return None
        return v.show(env2) if v.show else ''
    except (Infeasible, Imprecise, AbsRaise, RecursionError):
        return None
    finally:
        I.called = called
        set_ctx(ctx)


# self-test of the scenarios (selftest/replay.py): decided paths are also decided for singleton states
REPLAY_DECIDED = int(os.environ.get('VERIF_REPLAY_DECIDED', '0'))


def replay_outcome(I, scenario, ctx, max_steps):
    env = witness(ctx, lambda env: True)
    if env is None:
        return 'no witness'
    roots = [dom.conc(AStr((v,)), env) for v in ctx.roots]
    c2 = Ctx([])
    c2.replay = (list(ctx.picks), roots)
    called = I.called
    start(I, c2, max_steps * 4)
    try:
        scenario(I)
        return None
    except Violation as v:
        return 'violation %s' % v.key
    except (Infeasible, Imprecise, AbsRaise, RecursionError) as e:
        return '%s %s' % (type(e).__name__, e)
    finally:
        I.called = called
        set_ctx(ctx)


def guarded(scenario):
    """an exception no scenario expects is a violation of its own"""
    def f(I):
        try:
            return scenario(I)
        except AbsRaise as e:
            raise Violation('escapes', 'an unexpected exception leaves the library: %s %s' % (e.exc.cls.name, e.exc.attrs.get('args')), None, None)
    return f


def explore(I, name, scenario, max_paths=2000, max_time=30, seed=1, max_steps=150000, max_viol=3, order='mixed', root=(), confirm=False):
    res = Result(name)
    scenario = guarded(scenario)
    rnd = random.Random(seed)
    queue = [list(root)]
    t0 = time.time()
    while queue:
        if res.paths >= max_paths or time.time() - t0 > max_time or len(res.violations) >= max_viol:
            break
        if order == 'mixed' and len(queue) > 1 and res.paths % 2:
            i = rnd.randrange(len(queue))
            queue[i], queue[-1] = queue[-1], queue[i]
        script = queue.pop()
        ctx = Ctx(script)
        start(I, ctx, max_steps)
        res.paths += 1
        why = None
        try:
            scenario(I)
            res.decided += 1
            if len(res.samples) < 3:
                res.samples.append(describe(ctx))
            if REPLAY_DECIDED and res.decided % REPLAY_DECIDED == 0:
                r = replay_outcome(I, scenario, ctx, max_steps)
                if r is not None:
                    why = 'REPLAY %s' % r
        except Violation as v:
            env = None
            if v.differs is None:
                env = witness(ctx, lambda env: True)
            else:
                env = witness(ctx, v.differs, tries=3000)
            show = None
            if env is not None:
                show = v.show(env) if v.show else ''
                if confirm:
                    show = confirm_replay(I, scenario, ctx, env, v.key, max_steps)
            if show is None:
                res.unconfirmed += 1
                why = 'unconfirmed: %s' % v.key
            else:
                res.decided += 1
                if v.key not in res.violations:
                    res.violations[v.key] = {'msg': v.msg, 'example': show, 'path': describe(ctx, 40)}
        except Bounded as e:
            res.bounded += 1
        except Infeasible as e:
            res.infeasible += 1
        except AbsRaise as e:
            res.undecided += 1
            why = 'uncaught %r' % (e,)
        except Imprecise as e:
            res.undecided += 1
            why = str(e)
        except RecursionError:
            res.undecided += 1
            why = 'recursion'
        if why:
            res.why[why] = res.why.get(why, 0) + 1
        res.called |= I.called
        # alternatives beyond the prefix
        for i in range(len(script), len(ctx.arity)):
            for alt in range(ctx.arity[i]):
                if alt != ctx.script[i]:
                    queue.append(ctx.script[:i] + [alt])
    res.exhausted = not queue
    res.wall = time.time() - t0
    return res


def describe(ctx, n=12):
    out = []
    for w, label, c, k in ctx.trace[-n:]:
        out.append('%s: %s -> %d/%d' % (w, label, c, k))
    return out
