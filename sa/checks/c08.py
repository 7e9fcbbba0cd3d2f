"""C08: process state (stderr, environment, descriptors, temporary files) is restored."""
from ..scn import *

EXPLANATION = (
    'Abstract interpretation with a model of the descriptor table, the environment and temporary files, and with one fault injected at any '
    'acquisition point (temporary file, descriptor duplication, write, librpm failure or interrupt). On every path, normal or exceptional, '
    'the descriptor table, the environment and the set of temporary files at exit are compared with those at entry; at every call into librpm '
    'standard error must be redirected and, when parsing, the locale pinned.')
RULE = ('at exit (return or raise): fds == fds at entry, fd 2 is the original standard error, environ == environ at entry, no temporary file is left; '
        'at rpm.spec()/rpm.expandMacro(): fd 2 is redirected; at rpm.spec(): LANG = LC_ALL = C.UTF-8')
ASSUMPTIONS = ['at most one operating-system fault per path', 'restoring a saved descriptor and closing files do not fail', 'no concurrent threads']


def fail(key, msg):
    raise Violation(key, msg, None, None)


def check_calls(I, since, what):
    for e in I.world.events[since:]:
        if e[0] == 'expandMacro':
            if e[2].get(2) == 'STDERR':
                fail('not-captured', 'specfile/macros.py: macros are expanded (%s) while standard error is not captured' % what)
        elif e[0] == 'spec':
            if e[3].get(2) == 'STDERR':
                fail('not-captured', 'specfile/spec_parser.py: rpm.spec() is called (%s) while standard error is not captured' % what)
            env = dict((k, v) for k, v in e[4] if isinstance(k, str))
            for k in ('LANG', 'LC_ALL'):
                if k not in env or dom.tri_eq(env[k], 'C.UTF-8') is not True:
                    fail('locale', 'specfile/spec_parser.py: rpm.spec() is called (%s) while %s is not C.UTF-8' % (what, k))


def check_state(I, what):
    w = I.world
    if w.fds.get(2) != 'STDERR':
        fail('stderr-lost', 'after %s standard error is not the original one (%s)' % (what, w.fds.get(2)))
    for k in w.fds:
        if k > 2:
            fail('descriptor-leak', 'after %s a file descriptor is left open (%s)' % (what, w.fds[k]))
    if 0 not in w.fds or 1 not in w.fds:
        fail('descriptor-closed', 'after %s a standard stream is closed' % what)
    env, env0 = dict_items(w.env), w.env0
    a, b = dict(env), dict(env0)
    for k in sorted(set(a) | set(b)):
        if (k in a) != (k in b):
            fail('environment', 'after %s the environment variable %s is %s' % (what, k, 'left behind' if k in a else 'gone'))
        if dom.tri_eq(a[k], b[k]) is not True:
            raise Violation('environment', 'after %s the environment variable %s has changed' % (what, k), lambda env_: dom.conc(a[k], env_) != dom.conc(b[k], env_), lambda env_: '%r became %r' % (dom.conc(b[k], env_), dom.conc(a[k], env_)))
    if w.temps:
        fail('temporary-file', 'after %s a temporary file is left open' % what)
    for p, kind, _ in w.fs:
        if isinstance(p, str) and p.startswith('/tmp/') and kind != 'absent':
            fail('temporary-file', 'after %s the temporary file %s is left behind' % (what, p))


def dict_items(d):
    return [(e[0], e[1]) for e in d.items]


def guarded(I, what, fn):
    k = len(I.world.events)
    try:
        fn()
        how = what
    except AbsRaise as e:
        how = '%s raised %s' % (what, exc_name(e))
    check_calls(I, k, what)
    check_state(I, how)


SITES = {'tempfile', 'dup', 'dup2', 'file.write', 'addMacro', 'exists', 'write'}
BODY = ['Name: n', 'Version: %{x}', 'Source0: s.gz', '%description', '%changelog']


def sources(I, o):
    o.attrs['sources'] = VList([('s.gz', 0, 1)])


def load(I):
    w = I.world
    identity_expand(I)
    w.spec_outcomes = ('ok', 'ValueError', 'Interrupt', 'Other')
    w.faults, w.fault_sites = 1, SITES
    force = pick([False, True], 'force parse')
    guarded(I, 'loading a spec file', lambda: new_spec(I, BODY if not force else BODY[:2] + ['Group: %(cat %{SOURCE0})', '%include /w/x.inc'], force_parse=force))


def reuse(I):
    w = I.world
    identity_expand(I)
    s = new_spec(I, BODY)
    w.spec_outcomes = ('ok', 'ValueError', 'Interrupt', 'Other')
    w.expand_outcomes = (None,)
    w.faults, w.fault_sites = 1, SITES
    what = pick(['expand', 'expand with extra macros', 'active macros', 'rpm spec', 'property', 'reload'], 'operation')

    def run():
        if what == 'expand':
            I.call(I.getattr(s, 'expand'), ['%x'])
        elif what == 'expand with extra macros':
            I.call(I.getattr(s, 'expand'), ['%x'], {'extra_macros': VList([('x', 'y'), ('z', None)])})
        elif what == 'active macros':
            I.call(I.getattr(s, 'get_active_macros'), [])
        elif what == 'rpm spec':
            I.setattr(s, 'sourcedir', '/q')
            I.getattr(s, 'rpm_spec')
        elif what == 'property':
            I.getattr(s, 'expanded_version')
        else:
            I.call(I.getattr(s, 'reload'), [])
    guarded(I, what, run)
    w.faults, w.spec_outcomes = 0, ('ok', 'ValueError')
    guarded(I, what + ' again', run)


def macros(I):
    w = I.world
    w.expand_outcomes = ('', 'error', 'UnicodeEncodeError', 'KeyboardInterrupt', 'MemoryError')
    identity_expand(I)
    w.faults, w.fault_sites = 1, SITES
    what = pick(['expand', 'dump', 'remove', 'define', 'reinit'], 'operation')
    args = {'expand': ['%x'], 'dump': [], 'remove': ['x'], 'define': ['x', 'y'], 'reinit': []}[what]
    if what in ('remove', 'define', 'reinit'):
        # failing removals are retried: one failure is enough
        w.expand_outcomes = ()
        hit = [0]

        def ex(I, s):
            if not hit[0]:
                hit[0] = 1
                r = pick(['', 'KeyboardInterrupt', 'MemoryError'], 'expansion outcome')
                if r:
                    I.raise_(r)
            return s
        w.expand = ex
    guarded(I, 'Macros.%s()' % what, lambda: I.call(get(I, 'macros.Macros.' + what), args))


def capture(I):
    w = I.world
    w.faults, w.fault_sites = 1, SITES
    nested = pick([False, True], 'nested')
    exc = pick([None, 'RuntimeError', 'KeyboardInterrupt', 'GeneratorExit', 'StopIteration'], 'raised inside')
    c = get(I, 'context_management.capture_stderr')

    def run():
        def inside(v):
            if w.fds.get(2) == 'STDERR':
                fail('not-captured', 'specfile/context_management.py: standard error is not redirected inside capture_stderr()')
            if nested:
                r = with_view(I, I.call(c, []), lambda v: None, exc)
                if w.fds.get(2) == 'STDERR':
                    fail('not-captured', 'specfile/context_management.py: leaving a nested capture_stderr() ends the outer capture')
                if r is not None:
                    raise r
            elif exc:
                I.raise_(exc)
        r = with_view(I, I.call(c, []), inside)
        if exc is None and r is not None:
            raise r
        if exc is not None and exc not in ('GeneratorExit', 'StopIteration') and r is None and not any(e[0] == 'fault' for e in w.events):
            fail('exception-lost', 'specfile/context_management.py: capture_stderr() swallows an exception')
    guarded(I, 'capture_stderr()', run)


HOOKS = {'env_free': True, 'spec_object': sources}


def OBLIGATIONS(tier):
    return [Obligation('load', load, split=(2, 2, 2), hooks=HOOKS, quick=(8000, 60)), Obligation('later parses', reuse, split=(2, 2), hooks=HOOKS, quick=(12000, 60)),
            Obligation('macro operations', macros, split=(2, 2, 5), hooks={'env_free': True}), Obligation('capture', capture, split=2)]
