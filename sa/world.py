"""Models of the outside world: file system, environment, file descriptors,
librpm.  Every effect is recorded in `I.world.events`; outcomes the program
cannot control are partitioned (`choose`)."""
import os as _os
from pathlib import PurePosixPath

from .dom import *
from .dom import cur, Imprecise
from . import dom
from .interp import *
from .interp import _MISSING
from . import models
from .models import from_source, HERE


class World:
    now = (2024, 5, 8, 1, 5, 9)         # local time (CET)
    now_utc = (2024, 5, 7, 23, 5, 9)

    def __init__(self, I):
        self.I = I
        self.events = []
        self.fs = []            # [path string, kind, content]
        self.fds = {0: 'stdin', 1: 'stdout', 2: 'STDERR'}
        self.nextfd = 3
        self.env = None
        self.temps = []         # open temporary files
        self.faults = 0         # remaining faults to inject
        self.fault_sites = None
        self.spec_outcomes = ('ok',)
        self.expand = None      # hook
        self.expand_outcomes = ()
        self.rpm_macro_log = []
        self.nextid = 0
        self.rpm = None         # model of the macro context

    def ev(self, *e):
        self.events.append(e)

    def fault(self, site, exc='OSError'):
        if self.faults > 0 and (self.fault_sites is None or site in self.fault_sites):
            if cur().pick(2, 'fault at %s' % site):
                self.faults -= 1
                self.ev('fault', site)
                self.I.raise_(exc, 'injected fault at %s' % site)

    # ------------------------------------------------------------ files
    def lookup(self, p):
        for e in self.fs:
            if self.I.eq(e[0], p):
                return e
        return None

    KINDS = ('absent', 'file')

    def entry(self, p):
        e = self.lookup(p)
        if e is None:
            k = self.KINDS[cur().pick(len(self.KINDS), 'kind of file')]
            e = [p, k, None]
            self.fs.append(e)
            if k == 'file':
                e[2] = ABytes(dom.fresh_str('oldcontent', FULL), 'utf8', 'surrogateescape')
        return e

    def put(self, p, content, how):
        e = self.entry(p)
        if e[1] == 'dir':
            self.I.raise_('IsADirectoryError', 'is a directory')
        self.ev('write', p, e[1], how, content)
        e[1] = 'file'
        e[2] = content
        return e


def bi(name, fn):
    return VBuiltin(name, fn)


def _decode(I, b, enc, errors):
    if isinstance(b, (bytes,)):
        try:
            return b.decode(enc or 'utf8', errors or 'strict')
        except UnicodeDecodeError:
            I.raise_('UnicodeDecodeError', 'decode')
    enc_n = (enc or 'utf8').lower().replace('-', '').replace('_', '') if isinstance(enc or 'utf8', str) else None
    benc = (b.enc or 'utf8').lower().replace('-', '').replace('_', '')
    berr = b.errors or 'strict'
    errors = errors or 'strict'
    if enc_n != benc:
        raise Imprecise('decoding with a different codec')
    if errors == 'surrogateescape':
        return b.s
    # does the content contain undecodable bytes?
    sur = dom.cmask('\udce9')
    has = False
    c = cur()
    rest = b.s
    if isinstance(rest, str):
        has = any(0xd800 <= ord(x) < 0xe000 for x in rest)
    else:
        parts = dom.norm(rest.parts)
        has = any((isinstance(p, Var) and p.mask & sur) or (isinstance(p, str) and any(0xd800 <= ord(x) < 0xe000 for x in p)) for p in parts)
        if has:
            if c.choose(2, 'undecodable bytes') == 0:
                for p in parts:
                    if isinstance(p, Var):
                        p.mask &= ~sur
                has = False
    if not has:
        return b.s
    if errors == 'strict':
        I.raise_('UnicodeDecodeError', 'decode')
    return dom.derived('lossy_' + str(errors), b.s, lambda s: s.encode('utf8', 'surrogateescape').decode('utf8', errors))


def _encode(I, s, enc, errors):
    if isinstance(s, str) and (errors or 'strict') == 'strict':
        try:
            s.encode(enc or 'utf8')
        except UnicodeEncodeError:
            I.raise_('UnicodeEncodeError', 'encode')
    elif (errors or 'strict') == 'strict' and isinstance(s, AStr):
        sur = dom.cmask('\udce9')
        for p in dom.norm(s.parts):
            if (isinstance(p, Var) and p.mask & sur) or (isinstance(p, str) and any(0xd800 <= ord(x) < 0xe000 for x in p)):
                if cur().choose(2, 'unencodable characters') == 1:
                    if isinstance(p, Var):
                        cur().fact('contains a lone surrogate', lambda env, s=s: any(0xd800 <= ord(x) < 0xe000 for x in dom.conc(s, env)))
                    I.raise_('UnicodeEncodeError', 'encode')
                for q in dom.norm(s.parts):
                    if isinstance(q, Var):
                        q.mask &= ~sur
                break
    return ABytes(s, enc or 'utf8', errors or 'strict')


# -------------------------------------------------------------------- files

def file_class(I):
    c = getattr(I, '_file_class', None)
    if c is None:
        c = I._file_class = VClass('file', [I.builtins['object']], {}, 'io')

        def m(name):
            def deco(fn):
                c.attrs[name] = VBuiltin(name, lambda I, a, k: fn(a[0], *a[1:], **k))
                return fn
            return deco

        @m('fileno')
        def fileno(o):
            return o.attrs['_fd']

        @m('flush')
        def flush(o):
            I.world.ev('flush', o.attrs['_label'])

        @m('close')
        def close(o):
            if not o.attrs['_closed']:
                o.attrs['_closed'] = True
                fd = o.attrs['_fd']
                I.world.ev('close', o.attrs['_label'])
                if not o.attrs.get('_keepfd'):
                    I.world.fds.pop(fd, None)
                if o in I.world.temps:
                    I.world.temps.remove(o)
                    if o.attrs.get('_path') is not None:
                        e = I.world.lookup(o.attrs['_path'])
                        if e is not None and o.attrs.get('_delete', True):
                            e[1] = 'absent'

        @m('__enter__')
        def enter(o):
            return o

        @m('__exit__')
        def exit_(o, *a):
            close(o)
            return None

        @m('write')
        def write(o, data):
            if o.attrs['_label'] != 'stderr':
                I.world.fault('file.write')
            p = o.attrs.get('_path')
            if p is not None:
                e = I.world.entry(p)
                old = o.attrs.get('_buf')
                if is_str(data):
                    if o.attrs.get('_text'):
                        data = _encode(I, data, o.attrs.get('_enc'), o.attrs.get('_errors'))
                    else:
                        I.raise_('TypeError', 'a bytes-like object is required')
                if old is None:
                    new = data
                elif isinstance(old, ABytes) and isinstance(data, ABytes):
                    new = ABytes(dom.cat(old.s, data.s), old.enc, old.errors)
                else:
                    raise Imprecise('mixed writes')
                o.attrs['_buf'] = new
                I.world.ev('write', p, e[1], 'file.write', new)
                e[1], e[2] = 'file', new
            return 0

        @m('writelines')
        def writelines(o, data):
            for x in I.iterate(data):
                write(o, x)

        def captured():
            h = I.hooks.get('stderr_lines')
            if I.world.rpm is not None:
                return I.world.rpm.stderr(I)
            return h(I) if h else [b'======================== active 0 empty 0\n']

        @m('read')
        def read(o, n=-1):
            p = o.attrs.get('_path')
            if n is not None and n != -1:
                raise Imprecise('partial read')
            if p is None:
                data = list(captured())
                if all(isinstance(x, bytes) for x in data):
                    return b''.join(data)
                return Opq('filedata', 'bytes')
            e = I.world.entry(p)
            if o.attrs.get('_text'):
                return _decode(I, e[2], o.attrs.get('_enc'), o.attrs.get('_errors'))
            return e[2]

        def lines(o):
            if o.attrs.get('_path') is None:
                return list(captured())
            if not o.attrs.get('_text'):
                raise Imprecise('lines of binary data')
            parts = list(I.iterate(I.call(I.getattr(read(o), 'split'), ['\n'])))
            return [dom.cat(x, '\n') for x in parts[:-1]] + ([parts[-1]] if I.truth(parts[-1]) else [])

        @m('__iter__')
        def iter_(o):
            return VIter(iter(lines(o)))

        @m('readline')
        def readline(o, *a):
            raise Imprecise('readline')

        @m('seek')
        def seek(o, *a):
            I.world.ev('seek', o.attrs['_label'])
            return 0

        @m('truncate')
        def truncate(o, *a):
            raise Imprecise('truncate')

        @m('readlines')
        def readlines(o):
            return VList(lines(o))

        c.attrs['name'] = VProperty(VBuiltin('name', lambda I, a, k: a[0].attrs.get('_path')))
        c.attrs['closed'] = VProperty(VBuiltin('closed', lambda I, a, k: a[0].attrs['_closed']))
    return c


def new_file(I, label, path=None, fd=None, text=False, enc=None, errors=None):
    w = I.world
    if fd is None:
        fd = w.nextfd
        w.nextfd += 1
        w.fds[fd] = label
    o = VObj(file_class(I))
    o.attrs.update(_fd=fd, _label=label, _closed=False, _path=path, _text=text, _enc=enc, _errors=errors, _buf=None)
    return o


def open_(I, path, mode='r', enc=None, errors=None):
    if isinstance(path, VObj):
        path = path.attrs['_s']
    w = I.world
    if not isinstance(mode, str):
        raise Imprecise('open mode')
    w.fault('open')
    e = w.entry(path)
    if 'x' in mode:
        if e[1] != 'absent':
            I.raise_('FileExistsError', 'exists')
        w.ev('write', path, 'absent', 'open ' + mode, None)
        e[1], e[2] = 'file', ABytes('', 'utf8', None)
    elif 'w' in mode:
        w.ev('write', path, e[1], 'open ' + mode, None)
        e[1], e[2] = 'file', ABytes('', 'utf8', None)
    elif 'a' in mode or '+' in mode:
        raise Imprecise('append mode')
    elif e[1] == 'absent':
        I.raise_('FileNotFoundError', 'missing')
    return new_file(I, 'file', path, text='b' not in mode, enc=enc, errors=errors)


# --------------------------------------------------------------------- path

def path_class(I):
    m = getattr(I, '_pathlib', None)
    if m is not None:
        return m
    prim = {}

    def p(name):
        def deco(fn):
            prim[name] = VBuiltin(name, lambda I, a, k: fn(*a, **k))
            return fn
        return deco

    @p('_fs_str')
    def fs_str(x):
        if isinstance(x, VObj) and '_s' in x.attrs:
            return x.attrs['_s']
        if is_str(x):
            return x
        if isinstance(x, (Opq, Noop)):
            raise Imprecise('path from opaque')
        I.raise_('TypeError', 'path argument')

    @p('_fs_kind')
    def fs_kind(s):
        return I.world.entry(s)[1]

    @p('_fs_exists')
    def fs_exists(s, follow=True):
        I.world.ev('exists', s)
        if follow:
            I.world.fault('exists')
        k = I.world.entry(s)[1]
        return k not in ('absent', 'dangling') if follow else k != 'absent'

    @p('_fs_unlink')
    def fs_unlink(s, missing_ok=False):
        I.world.fault('unlink')
        e = I.world.entry(s)
        I.world.ev('unlink', s, e[1])
        if e[1] == 'absent':
            if I.truth(missing_ok):
                return None
            I.raise_('FileNotFoundError', 'missing')
        if e[1] == 'dir':
            I.raise_('IsADirectoryError', 'is a directory')
        e[1] = 'absent'

    @p('_fs_read')
    def fs_read(s, text, enc, errors):
        I.world.ev('read', s)
        I.world.fault('read')
        e = I.world.entry(s)
        if e[1] == 'absent':
            I.raise_('FileNotFoundError', 'missing')
        return _decode(I, e[2], enc, errors) if text else e[2]

    @p('_fs_write')
    def fs_write(s, data, text, enc, errors):
        if text:
            if not is_str(data):
                I.raise_('TypeError', 'data must be str')
            data = _encode(I, data, enc, errors)
        elif is_str(data):
            I.raise_('TypeError', 'memoryview')
        I.world.fault('write')
        I.world.put(s, data, 'write_text' if text else 'write_bytes')
        I.world.fault('partial write')
        return 1

    @p('_fs_touch')
    def fs_touch(s, exist_ok=True):
        I.world.fault('write')
        e = I.world.entry(s)
        if e[1] == 'absent':
            I.world.put(s, ABytes('', 'utf8', None), 'touch')
        elif not I.truth(exist_ok):
            I.raise_('FileExistsError', 'exists')

    @p('_fs_open')
    def fs_open(s, mode, enc, errors):
        return open_(I, s, mode, enc, errors)

    @p('_fs_samefile')
    def fs_samefile(a, b):
        I.world.fault('samefile')
        I.world.ev('samefile', a, b)
        if I.eq(a, b):
            return True
        if getattr(I.world, 'fs_plain', False):      # a scenario without links
            return False
        key = ('samefile', dom.key_of(a), dom.key_of(b))
        memo = cur().memo
        if key not in memo:
            memo[key] = bool(cur().pick(2, 'same file'))
        return memo[key]

    @p('_fs_rename')
    def fs_rename(a, b):
        e = I.world.entry(a)
        I.world.put(b, e[2], 'rename')
        e[1] = 'absent'

    @p('_fs_resolve')
    def fs_resolve(s):
        if not isinstance(s, str) and not (isinstance(dom.norm(s.parts)[0], str) and dom.norm(s.parts)[0].startswith('/')) or isinstance(s, str) and not s.startswith('/'):
            raise Imprecise('resolving a relative path')
        e = I.world.lookup(s)
        if e is not None and e[1] == 'dangling':
            return '/elsewhere/target'
        return s

    @p('_fs_mkdir')
    def fs_mkdir(s, parents, exist_ok):
        I.world.fault('write')
        e = I.world.entry(s)
        if e[1] != 'absent':
            if e[1] == 'dir' and I.truth(exist_ok):
                return
            I.raise_('FileExistsError', 'exists')
        I.world.ev('mkdir', s)
        e[1] = 'dir'

    @p('_fs_size')
    def fs_size(s):
        e = I.world.entry(s)
        if e[1] in ('absent', 'dangling'):
            I.raise_('FileNotFoundError', 'missing')
        if not isinstance(e[2], bytes):
            raise Imprecise('size of a file')
        # whatever ran in between may have written to the file
        return [len(e[2]), len(e[2]) + 100][cur().pick(2, 'file size')]

    @p('_fs_other')
    def fs_other(*a):
        raise Imprecise('path operation')
    m = from_source(I, _os.path.join(HERE, 'world_src.py'), ['Path', 'PurePath', '_Stat'], prim, 'pathlib')
    m.attrs['PosixPath'] = m.attrs['Path']
    m.attrs['PurePosixPath'] = m.attrs['Path']
    I._pathlib = m
    return m


def mkpath(I, s):
    return I.call(path_class(I).attrs['Path'], [s])


# --------------------------------------------------------------------- rpm

def opaque_expand(I, s):
    """value of rpm.expandMacro(s): a free string, the same for the same text"""
    memo = cur().memo
    k = ('expand', I.world.macro_epoch if hasattr(I.world, 'macro_epoch') else 0, dom.key_of(s))
    if k not in memo:
        memo[k] = dom.fresh_str('exp', FULL)
    return memo[k]


def rpm_module(I):
    B = I.builtins
    err = VClass('error', [B['Exception']], {}, 'rpm')
    f = lambda n, fn: VBuiltin(n, fn)

    def expand(I, a, k):
        I.world.ev('expandMacro', a[0], dict(I.world.fds))
        if I.world.rpm is not None:
            return I.world.rpm.expand(I, a[0])
        outs = I.world.expand_outcomes
        if outs:
            r = outs[cur().pick(len(outs), 'rpm.expandMacro outcome')]
            if r == 'error':
                raise AbsRaise(I.call(err, ['error expanding macro']))
            if r:
                I.raise_(r, 'during expansion')
        h = I.world.expand
        if h is not None:
            return h(I, a[0])
        return opaque_expand(I, a[0])

    def add(I, a, k):
        I.world.ev('addMacro', a[0], a[1])
        I.world.fault('addMacro', 'ValueError')
        if I.world.rpm is not None:
            I.world.rpm.add(I, a[0], a[1])

    def dele(I, a, k):
        I.world.ev('delMacro', a[0])
        if I.world.rpm is not None:
            I.world.rpm.delete(I, a[0])

    def reload_(I, a, k):
        I.world.ev('reloadConfig')
        if I.world.rpm is not None:
            I.world.rpm.reload(I)

    def spec_new(I, c, a, k):
        w = I.world
        content = None
        if a:
            e = w.lookup(a[0]) if is_str(a[0]) else None
            content = e[2] if e else None
        o = VObj(c)
        w.ev('spec', content, a[1:] , dict(w.fds), dict_items(w.env) if w.env is not None else None, o)
        if w.rpm is not None:
            w.rpm.spec(I, o, content)
        outs = w.spec_outcomes
        r = outs[cur().pick(len(outs), 'rpm.spec outcome')]
        if r == 'ValueError':
            w.ev('spec-failed')
            I.raise_('ValueError', "can't parse specfile")
        if r == 'Other':
            I.raise_('MemoryError', 'x')
        if r == 'Interrupt':
            I.raise_('KeyboardInterrupt')
        h = I.hooks.get('spec_object')
        o.attrs['sources'] = VList([])
        o.attrs['parsed'] = dom.fresh_str('parsed', FULL)
        if h:
            h(I, o)
        return o
    spec = VClass('spec', [B['object']], {'__native_new__': spec_new}, 'rpm')

    def label(I, a, k):
        h = I.hooks.get('labelCompare')
        if h:
            return h(I, a[0], a[1])
        raise Imprecise('labelCompare')
    return VModule('rpm', {'error': err, 'expandMacro': f('expandMacro', expand), 'addMacro': f('addMacro', add), 'delMacro': f('delMacro', dele),
                           'reloadConfig': f('reloadConfig', reload_), 'spec': spec, 'labelCompare': f('labelCompare', label),
                           'RPMSPEC_ANYARCH': 1, 'RPMSPEC_FORCE': 4, 'expandNumeric': f('x', lambda I, a, k: OInt('num'))})


def new_env(I):
    d = VDict()
    for k in ('LANG', 'LC_ALL'):
        if I.hooks.get('env_free') and cur().pick(2, 'env %s set' % k):
            d.put(k, dom.fresh_str('env_' + k, dom.NOT_NL))
    d.put('HOME', '/root')
    return d


def dict_items(d):
    return [(e[0], e[1]) for e in d.items]


def module(I, name):
    B = I.builtins
    M = lambda attrs: VModule(name, attrs)
    f = lambda n, fn: VBuiltin(n, fn)
    if name == 'rpm':
        return rpm_module(I)
    if name == 'pathlib':
        m = path_class(I)
        return m
    if name == 'os.path':
        def comp(fn):
            return lambda I, a, k: fn(a[0])

        def base(s):
            s = s.attrs['_s'] if isinstance(s, VObj) else s
            r = dom.find_split(s, '/', from_right=True)
            return s if r is None else r[1]
        return M({'basename': f('basename', lambda I, a, k: I.getattr(mkpath(I, a[0]), 'name')),
                  'dirname': f('dirname', lambda I, a, k: I.call(B['str'], [I.getattr(mkpath(I, a[0]), 'parent')])),
                  'exists': f('exists', lambda I, a, k: I.call(I.getattr(mkpath(I, a[0]), 'exists'), [])),
                  'lexists': f('lexists', lambda I, a, k: I.call(I.getattr(mkpath(I, a[0]), '_lexists'), [])),
                  'isfile': f('isfile', lambda I, a, k: I.call(I.getattr(mkpath(I, a[0]), 'is_file'), [])),
                  'islink': f('islink', lambda I, a, k: I.call(I.getattr(mkpath(I, a[0]), 'is_symlink'), [])),
                  'samefile': f('samefile', lambda I, a, k: I.call(I.getattr(mkpath(I, a[0]), 'samefile'), [a[1]])),
                  'join': f('join', lambda I, a, k: I.call(B['str'], [I.call(I.getattr(mkpath(I, a[0]), 'joinpath'), a[1:])]))})
    if name == 'os':
        def dup(I, a, k):
            w = I.world
            w.fault('dup')
            if a[0] not in w.fds:
                I.raise_('OSError', 'EBADF')
            fd = w.nextfd
            w.nextfd += 1
            w.fds[fd] = w.fds[a[0]]
            w.ev('dup', a[0], fd)
            return fd

        def dup2(I, a, k):
            w = I.world
            if w.fds.get(a[0]) != 'STDERR':
                w.fault('dup2')         # redirecting may fail, restoring may not
            if a[0] not in w.fds:
                I.raise_('OSError', 'EBADF')
            w.fds[a[1]] = w.fds[a[0]]
            w.ev('dup2', a[0], a[1])
            return a[1]

        def fdopen(I, a, k):
            I.world.fault('fdopen')
            o = new_file(I, 'fdopen', fd=a[0])
            if 'closefd' in k and not I.truth(k['closefd']):
                o.attrs['_keepfd'] = True
            return o

        def close(I, a, k):
            I.world.fds.pop(a[0], None)
            I.world.ev('closefd', a[0])

        def unlink(I, a, k):
            return I.call(I.getattr(mkpath(I, a[0]), 'unlink'), [])

        env = VDict()
        m = M({'dup': f('dup', dup), 'dup2': f('dup2', dup2), 'fdopen': f('fdopen', fdopen), 'close': f('close', close),
               'environ': Opq('environ', 'obj'), 'unlink': f('unlink', unlink), 'remove': f('remove', unlink), '_Environ': Noop('Environ'),
               'fspath': f('fspath', lambda I, a, k: a[0].attrs['_s'] if isinstance(a[0], VObj) else a[0]),
               'sep': '/', 'linesep': '\n', 'PathLike': Noop('PathLike'), 'devnull': '/dev/null',
               'getenv': f('getenv', lambda I, a, k: I.call(I.getattr(I.modules['os'].attrs['environ'], 'get'), a)),
               'putenv': f('putenv', lambda I, a, k: (_ for _ in ()).throw(Imprecise('putenv'))),
               'path': module(I, 'os.path')})
        return m
    if name == 'tempfile':
        def tf(I, a, k):
            I.world.fault('tempfile')
            o = new_file(I, 'tmp')
            I.world.temps.append(o)
            I.world.ev('tmpfile', o)
            return o

        def ntf(I, a, k):
            w = I.world
            w.fault('tempfile')
            w.nextid += 1
            mode = a[0] if a else k.get('mode', 'w+b')
            p = '/tmp/%s%d' % (k.get('prefix', 'tmp') if isinstance(k.get('prefix', 'tmp'), str) else 'tmp', w.nextid)
            w.fs.append([p, 'absent', None])
            o = new_file(I, 'tmp', path=p, text='b' not in mode, enc=k.get('encoding'), errors=k.get('errors'))
            e = w.entry(p)
            e[1], e[2] = 'file', ABytes('', 'utf8', None)
            o.attrs['_delete'] = k.get('delete', True)
            w.temps.append(o)
            w.ev('tmpfile', o)
            return o
        return M({'TemporaryFile': f('TemporaryFile', tf), 'NamedTemporaryFile': f('NamedTemporaryFile', ntf), 'SpooledTemporaryFile': f('x', tf)})
    if name == 'subprocess':
        cpe = VClass('CalledProcessError', [B['Exception']], {}, 'subprocess')

        def run(I, a, k, output=False):
            I.world.ev('subprocess', a)
            h = I.hooks.get('subprocess')
            if h is None:
                return Opq('subprocess', 'obj')
            a = list(a) + ([k['args']] if 'args' in k else [])
            cmd = a[0].items if isinstance(a[0], VList) else list(a[0]) if isinstance(a[0], tuple) else a[0].split() if isinstance(a[0], str) else None
            if cmd is None or not all(isinstance(x, str) for x in cmd) or set(k) - {'args', 'stdout', 'stderr', 'universal_newlines', 'text', 'encoding', 'check', 'capture_output', 'errors'}:
                raise Imprecise('subprocess')
            rc, out = h(I, cmd)
            t = any(k.get(n) for n in ('universal_newlines', 'text', 'encoding', 'errors'))
            val = out if t else ABytes(out, 'utf8', None)
            if rc and (output or I.truth(k.get('check', False))):
                raise Imprecise('CalledProcessError')
            if output:
                return val
            piped = I.truth(k.get('capture_output', False)) or k.get('stdout') == -1
            o = VObj(B['object'])
            o.attrs.update(stdout=val if piped else None, stderr='' if t else b'', returncode=rc, args=a[0])
            return o
        return M({'run': f('run', run), 'check_output': f('check_output', lambda I, a, k: run(I, a, k, True)), 'Popen': f('Popen', lambda I, a, k: Opq('subprocess', 'obj')), 'call': f('call', lambda I, a, k: Opq('subprocess', 'obj')), 'PIPE': -1, 'DEVNULL': -3, 'STDOUT': -2,
                  'CalledProcessError': cpe, 'SubprocessError': cpe})
    if name == 'getpass':
        def getuser(I, a, k):
            h = I.hooks.get('user')
            if h is None:
                return dom.fresh_str('user', dom.NOT_NL, 1)
            u = h(I)[0]
            if u is None:
                I.raise_(h(I)[2], 'no user')
            return u
        return M({'getuser': f('getuser', getuser)})
    if name == 'pwd':
        def getpw(I, a, k):
            h = I.hooks.get('user')
            if h is None:
                return Opq('pw', 'obj')
            u, g, _ = h(I)
            if g is None or u is None:
                I.raise_('KeyError', 'getpwnam(): name not found')
            if not I.eq(a[0], u):
                raise Imprecise('another user')
            o = VObj(B['object'])
            o.attrs.update(pw_name=u, pw_gecos=g)
            return o
        return M({'getpwnam': f('getpwnam', getpw), 'getpwuid': f('getpwuid', lambda I, a, k: Opq('pw', 'obj'))})
    if name == 'shutil':
        def eff(nm):
            def g(I, a, k):
                I.world.ev('shutil.' + nm, a)
                raise Imprecise('shutil.' + nm)
            return f(nm, g)
        return M({'which': f('which', lambda I, a, k: I.hooks['which'](I, a[0]) if 'which' in I.hooks else Opq('which', 'obj')), 'rmtree': eff('rmtree'), 'copy': eff('copy'), 'move': eff('move'), 'copyfile': eff('copyfile')})
    return VModule(name, {})       # attributes of unmodelled modules are imprecise


def stderr_obj(I):
    o = VObj(file_class(I))
    o.attrs.update(_fd=2, _label='stderr', _closed=False, _path=None, _text=True, _buf=None)
    return o


def reset(I):
    """fresh world for one path"""
    w = I.world = World(I)
    return w


def use_env(I):
    """make os.environ a tracked dictionary"""
    w = I.world
    w.env = new_env(I)
    I.load_module('os').attrs['environ'] = w.env
    w.env0 = dict_items(w.env)
    s = I.load_module('sys')
    s.attrs['__stderr__'] = stderr_obj(I)
    s.attrs['stderr'] = s.attrs['__stderr__']
    return w
