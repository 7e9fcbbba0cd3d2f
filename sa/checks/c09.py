"""C09: parsing leaves the source directory as it was."""
from ..scn import *

EXPLANATION = (
    'Abstract interpretation of parsing with an effect log of the file system: for every shape of source location, every kind of directory entry '
    '(missing, file, dangling link, directory) and every outcome of writing and of librpm, the log must only contain files created where nothing '
    'existed, directly in the source directory, and all of them must be gone at exit; at the full parse every source must exist.')
RULE = ('write(p) => p was absent or was created by this parse, and dirname(p) == sourcedir; unlink(p) => created by this parse; at exit nothing created is left; '
        'at the full parse every source file exists (unless creating it failed); tainted iff the first parse failed and a later one succeeded')
ASSUMPTIONS = ['removing a file just created does not fail', 'source locations from a finite list of shapes', 'no concurrent changes of the directory', 'at most one write fault per path']

# location, file name
LOCS = [
    lambda: ('s.gz', 's.gz'),
    lambda: (cat('s', n := fresh_str('n', LETTER, 1, 2), '.zip'), cat('s', n, '.zip')),
    lambda: ('https://h/p/s.tar.xz', 's.tar.xz'),
    lambda: ('https://h/get#/r.bz2', 'r.bz2'),
    lambda: ('https://h/get?file=q.zst', 'q.zst'),
    lambda: ('../up.lz', 'up.lz'),
    lambda: ('/abs/x.lrz', 'x.lrz'),
    lambda: ('https://h/dir/', None),
    lambda: ('', None),
    lambda: ('a=b.7z', 'a=b.7z'),
    lambda: ('x/..', None),
    lambda: ('.', None),
    lambda: ('plain', 'plain'),
    lambda: pick(ODD, 'odd name'),
]
ODD = [('a.zip.patch', 'a.zip.patch'), ('s.tar.gz.asc', 's.tar.gz.asc'), ('gz', 'gz'), ('axz', 'axz'), ('https://h/x.xz/y', 'y'), ('https://h/s.gz?x=y.txt', 'y.txt'), ('x.GZ', 'x.GZ'),
       ('b.tar.bz2', 'b.tar.bz2'), ('c.lzma', 'c.lzma'), ('d.tgz', 'd.tgz'), ('.zst', '.zst'), ('https://h/v1.0.zip#/n-1.0.tar.gz', 'n-1.0.tar.gz'), ('e.7z.1', 'e.7z.1'), ('f.gz~', 'f.gz~')]
SIG = {'.bz2': b'BZh', '.zip': b'PK00', '.xz': b'\xfd\x37\x7a\x58\x5a\x00', '.zst': b'\x28\xb5\x2f', '.lz': b'LZIP', '.lrz': b'LRZI', '.gz': b'\x1f\x8b', '.7z': b'7z\xbc\xaf\x27\x1c'}
SD = '/d/src'


def setup(I):
    w = I.world
    w.KINDS = ('absent', 'file', 'dangling', 'dir')
    for p in (SD, SD + '/.', SD + '/..', '/d', '/'):
        w.fs.append([p, 'dir', None])
    w.seen = []


def shown(x):
    return lambda env: repr(dom.conc(x, env))


def verify(I, what, faulted=None):
    w = I.world
    created = []

    def mine(p):
        return any(dom.tri_eq(p, q) is True for q in created)
    for e in w.events:
        if e[0] == 'write' and not (isinstance(e[1], str) and (e[1].startswith('/tmp/') or e[1] == SPEC)):
            p = e[1]
            if e[2] != 'absent' and not mine(p):
                raise Violation('overwrites', 'specfile/spec_parser.py: parsing writes to an existing %s' % {'file': 'file', 'dangling': 'symbolic link', 'dir': 'directory'}[e[2]], None, shown(p))
            d, _, n = str_rpart(p)
            if d != SD:
                raise Violation('outside', 'specfile/spec_parser.py: parsing creates a file outside of the source directory', None, shown(p))
            created.append(p)
        elif e[0] == 'unlink' and not (isinstance(e[1], str) and e[1].startswith('/tmp/')):
            if not mine(e[1]):
                raise Violation('removes', 'specfile/spec_parser.py: parsing removes a file it has not created', None, shown(e[1]))
    for e in w.events:
        if e[0] == 'mkdir' or e[0] == 'write' and e[3] == 'rename' and not mine(e[1]):
            raise Violation('creates', 'specfile/spec_parser.py: parsing creates a directory or renames a file', None, shown(e[1]))
    for p in created:
        k = w.lookup(p)
        if k is not None and k[1] != 'absent':
            raise Violation('left-behind', 'specfile/spec_parser.py: a dummy source is left behind after %s' % what, None, shown(p))
    return created


def str_rpart(p):
    parts = [p] if isinstance(p, str) else dom.norm(p.parts)
    if isinstance(parts[0], str) and parts[0].startswith(SD + '/') and '/' not in parts[0][len(SD) + 1:]:
        for q in parts[1:]:
            if isinstance(q, str) and '/' in q or isinstance(q, Var) and q.mask & cmask('/'):
                raise Imprecise('path')
        return SD, '/', None
    if isinstance(p, str) or isinstance(parts[0], str) and not parts[0].startswith(SD):
        return None, '/', None
    raise Imprecise('path')


def hook(srcs):
    def spec_object(I, o):
        w = I.world
        o.attrs['sources'] = VList([(l, i, 1) for i, (l, f) in enumerate(srcs)])
        args = [e for e in w.events if e[0] == 'spec'][-1][2]
        full = bool(args) and isinstance(args[0], int) and not args[0] & 4
        w.parses.append(full)
        if full and not any(e[0] == 'fault' for e in w.events):
            for l, f in srcs:
                if f is None:
                    continue
                p = cat(SD + '/', f)
                e = w.lookup(p)
                if e is None or e[1] == 'absent':
                    raise Violation('source-missing', 'specfile/spec_parser.py: the full parse runs while a source does not exist', None, shown(l))
                sig(w, p, f)
    return spec_object


def sig(w, p, f):
    """the signature of dummy archives matches the file extension"""
    made = [e for e in w.events if e[0] == 'write' and dom.tri_eq(e[1], p) is True and len(e) > 4 and e[4] is not None]
    if not made or not isinstance(made[-1][4], bytes):
        return
    last = f if isinstance(f, str) else f.parts[-1]
    ext = '.' + last.rsplit('.', 1)[-1] if '.' in last else ''
    want = SIG.get(ext)
    data = made[-1][4]
    if want is not None and not data.startswith(want) or want is None and any(data.startswith(v) for v in SIG.values()):
        raise Violation('signature', 'specfile/spec_parser.py: the signature of a dummy source does not match its file name', None, lambda env: '%r for %r' % (data, dom.conc(f, env)))


def run(I, lines, srcs, what, **kw):
    w = I.world
    w.parses = []
    I.hooks['spec_object'] = hook(srcs)
    s = None
    try:
        s = new_spec(I, lines, sourcedir=SD, **kw)
        how = what
    except AbsRaise as e:
        how = '%s raised %s' % (what, exc_name(e))
    created = verify(I, how)
    return s, created


def plain(I):
    setup(I)
    identity_expand(I)
    n = pick([1, 2], 'number of sources')
    srcs = [pick(LOCS, 'location')() for _ in range(n)]
    w = I.world
    w.spec_outcomes = ('ok', 'ValueError', 'Interrupt')
    w.faults, w.fault_sites = (1, {'write', 'partial write'}) if n == 1 else (0, ())
    if n == 2:
        w.KINDS = ('absent', 'file')
    s, c = run(I, ['Name: n'], srcs, 'loading')
    if s is not None and I.truth(I.getattr(s, 'tainted')):
        raise Violation('tainted', 'specfile/spec_parser.py: tainted although parsing was not forced', None, None)


FORCED = [
    # lines, files that must exist for the second attempt
    (['%include x.inc'], None), (['%include ' + SD + '/x.inc'], 'x.inc'), (['  %include  ' + SD + '/x.inc'], 'x.inc'), (['%include /etc/x.inc'], None),
    (['%include ' + SD + '/\\', 'y.inc'], 'y.inc'), (['%include ' + SD + '/z\\', 'y.inc'], 'zy.inc'), (['%{load:' + SD + '/m.lua}'], 'm.lua'), (['A: x %{load:' + SD + '/m.lua}'], 'm.lua'),
    (['Group: %(cat %{SOURCE0})'], 's.txt'), (['Group: %(cat %SOURCE0 %{S:1})'], 's.txt'), (['Group: x%(cat %{SOURCE0})'], None), (['Group: g'], None),
    (['%include ' + SD + '/s.txt', 'Group: %(cat %{SOURCE0})'], 's.txt'), (['%{load:/etc/m.lua}'], None), (['%{load:' + SD + '/sub/m.lua}'], None), (['%included ' + SD + '/x.inc'], None),
    (['echo %include ' + SD + '/x.inc'], None), (['Group: %(cat %{?SOURCE0})'], 's.txt'), (['%{load:' + SD + '/m.lua}', '%include ' + SD + '/x.inc'], 'm.lua'), (['%{?x:%{load:' + SD + '/m.lua}}'], 'm.lua'),
    (['%include ' + SD + '/\\', 'z\\', 'y.inc'], 'zy.inc'), (['%include ' + SD + '/x.inc', '%{!?x:%{?y:a%{load:' + SD + '/m.lua}}}'], 'm.lua'),
]


def expander(I, s):
    t = s if isinstance(s, str) else None
    if t is None:
        return s
    if t.startswith('%(cat'):
        return ''
    if t in ('%{SOURCE0}', '%SOURCE0', '%{?SOURCE0}'):
        return SD + '/s.txt'
    if t == '%{S:1}':
        return '/etc/passwd'
    return t


def forced(I):
    setup(I)
    w = I.world
    w.fs_plain = True
    w.expand = expander
    lines, name = pick(FORCED, 'lines')
    force = pick([True, False], 'force parse')
    locs = [('s.txt', 's.txt'), ('o.gz', 'o.gz')]
    w.fault_sites = {'write', 'partial write'}
    w.faults = 1
    w.KINDS = ('absent', 'file', 'dangling') if len(lines) == 1 else ('absent', 'file')
    w.spec_outcomes = ('ok', 'ValueError')
    s, c = run(I, ['Name: n'] + lines, locs, 'a forced parse' if force else 'a failed parse', force_parse=force)
    specs = [e for e in w.events if e[0] in ('spec', 'spec-failed')]
    first_failed = len(specs) > 1 and specs[1][0] == 'spec-failed'
    kinds = [(i, e) for i, e in enumerate(w.events) if e[0] in ('spec', 'spec-failed')]
    show = lambda env: repr(lines)
    if first_failed and force:
        mark = kinds[1][0]
        upto = kinds[2][0] if len(kinds) > 2 else len(w.events)
        made = [e[1] for e in w.events[mark:upto] if e[0] == 'write' and isinstance(e[1], str) and e[1].startswith(SD + '/')]
        allowed = {SD + '/' + x for x in ([name, 'x.inc'] if name else [])}
        for p in made:
            if p not in allowed:
                raise Violation('dummy-name', 'specfile/spec_parser.py: a dummy file %s is created for a file that is not in the source directory or not used' % p, None, show)
        faulted = any(e[0] == 'fault' for e in w.events[:upto])
        k = w.lookup(SD + '/' + name) if name else None
        if name and not faulted and SD + '/' + name not in made and (k is None or k[1] == 'absent'):
            raise Violation('not-forced', 'specfile/spec_parser.py: a forced parse does not provide %s' % name, None, show)
    if s is not None:
        t = I.truth(I.getattr(s, 'tainted'))
        if t != (first_failed):
            raise Violation('tainted', 'specfile/spec_parser.py: tainted is %s although the first parse %s' % (t, 'failed' if first_failed else 'succeeded'), None, None)
        if not force and first_failed:
            raise Violation('forced', 'specfile/spec_parser.py: a failed parse is repeated although parsing is not forced', None, None)


def OBLIGATIONS(tier):
    return [Obligation('sources', plain, split=(2, len(LOCS)), quick=(60000, 60)), Obligation('forced', forced, split=(len(FORCED), 2), quick=(20000, 60))]
