"""C03: loading and saving a spec file is lossless."""
from ..scn import *

EXPLANATION = (
    'Abstract interpretation of loading, reading and saving over an abstract file: the file content is a sequence of abstract lines '
    '(arbitrary characters, including bytes that are not valid UTF-8) with or without a final newline. The recorded file-system effects '
    'must contain no write to the spec file before an explicit save, and the content written must provably be the content read.')
RULE = 'str(spec) == file content; content written by save() == content read; no write to the spec file without save'
ASSUMPTIONS = ['file content has no carriage return (universal newline translation is outside the property)',
               'the file system is modelled as a map from paths to contents; librpm is an opaque partner']

CR = cmask('\r')


def content():
    n = cur().pick(4, 'number of lines')
    if n == 0:
        return [], '', False
    nl = cur().pick(2, 'final newline') == 0
    lines = [fresh_str('L%d' % i, NOT_NL & ~CR, 0 if nl or i < n - 1 else 1, None) for i in range(n)]
    text = join_lines(lines, nl)
    return lines, text, nl


def before(I, key, since=0):
    for e in I.world.events[since:]:
        if e[0] in ('write', 'unlink') and is_str(e[1]) and not (isinstance(e[1], str) and e[1].startswith('/tmp/')):
            raise Violation(key, 'a file is written or removed (%s) although nothing was saved' % (e[3] if len(e) > 3 else e[0]), None, lambda env: repr(dom.conc(e[1], env)))


def show(text):
    return lambda env: repr(dom.conc(text, env))


def load_save(I):
    identity_expand(I)
    lines, text, nl = content()
    s = no_raise(I, 'load-raises', 'Specfile()', lambda: new_spec(I, text), show(text))
    same_text(to_str(I, s), text, 'str', 'specfile/specfile.py: str(Specfile) differs from the loaded file')
    before(I, 'write-without-save')
    k = len(I.world.events)
    no_raise(I, 'save-raises', 'Specfile.save()', lambda: I.call(I.getattr(s, 'save'), []), show(text))
    if not writes_to(I, SPEC, k):
        raise Violation('save-does-not-write', 'Specfile.save() does not write the spec file', None, show(text))
    same_text(file_text(I, SPEC), text, 'save', 'specfile/specfile.py: saving an unmodified spec file changes it')
    for e in I.world.events[k:]:
        if e[0] == 'write' and dom.tri_eq(e[1], SPEC) is False:
            raise Violation('save-elsewhere', 'Specfile.save() writes another file', None, lambda env: repr(e[1]))


def ctx_exit(I):
    """with Specfile(...) saves on exit, exactly the current content"""
    identity_expand(I)
    lines, text, nl = content()
    s = new_spec(I, text)
    I.call(I.getattr(s, '__enter__'), [])
    x = fresh_str('X', NOT_NL & ~CR, 0, None)
    with_view(I, I.call(I.getattr(s, 'lines'), []), lambda v: I.call(I.getattr(v, 'append'), [x]))
    before(I, 'write-without-save')
    exc = pick([None, 'RuntimeError', 'KeyboardInterrupt'], 'left by')
    e = I.call(I.builtins[exc], ['x']) if exc else None
    I.call(I.getattr(s, '__exit__'), [e.cls, e, None] if exc else [None, None, None])
    same_text(file_text(I, SPEC), to_str(I, s), 'exit-save', 'specfile/specfile.py: leaving the context of a Specfile does not save its content')
    same_lines(items(I, split_lf(I, file_text(I, SPEC), nl or not lines and False)), lines + [x], 'append-line', 'appending a line and saving does not append exactly that line')


def split_lf(I, text, nl):
    out = I.call(I.getattr(text, 'split'), ['\n'])
    if nl:
        out.items.pop()
    return out


def readers(I):
    """reading through any accessor writes nothing and changes nothing"""
    identity_expand(I)
    auto = cur().pick(2, 'autosave') == 1
    body = ['Name: n', cat('Version: ', fresh_str('v', PLAIN, 1, 1)), 'Release: 1', cat('# ', fresh_str('c', PLAIN, 1, 1)), 'Source0: s', 'Patch0: p', '', '%description', cat('d', fresh_str('d', TEXT & ~CR, 0, None)),
            '%prep', '%setup -q', '', '%sourcelist', 'src', '', '%patchlist', 'pt', '%changelog', '* h - 1', '- e', '']
    trailing = cur().pick(2, 'final newline') == 0
    text = join_lines(body, trailing)
    s = new_spec(I, text, autosave=auto)
    which = pick(['sections', 'tags', 'changelog', 'prep', 'sources', 'patches', 'macro_definitions', 'lines', 'version', 'expanded_version', 'release', 'has_autochangelog', 'has_autorelease', 'reload', 'expand', 'rpm_spec', 'tainted', 'get_active_macros'], 'reader')
    k = len(I.world.events)
    if which in ('sections', 'tags', 'changelog', 'prep', 'sources', 'patches', 'macro_definitions', 'lines'):
        how = cur().pick(2, 'how')
        cm = I.call(I.getattr(s, which), [])
        if how == 0:
            with_view(I, cm, lambda v: None)
        else:
            I.getattr(cm, 'content')
    elif which == 'reload':
        I.call(I.getattr(s, 'reload'), [])
    elif which == 'expand':
        I.call(I.getattr(s, 'expand'), ['%x'])
    elif which == 'get_active_macros':
        I.call(I.getattr(s, 'get_active_macros'), [])
    else:
        I.getattr(s, which)
    same_text(to_str(I, s), text, 'read-changes', 'reading through `%s` changes the content' % which)
    if not auto:
        before(I, 'read-writes', k)
    same_text(file_text(I, SPEC), text, 'read-changes-file', 'reading through `%s` changes the file' % which)


def new_path(I):
    """changing the path writes nothing; save() then creates the file"""
    identity_expand(I)
    lines, text, nl = content()
    s = new_spec(I, text)
    other = '/w/n.spec'
    I.world.fs.append([other, 'absent', None])
    k = len(I.world.events)
    setattr_(I, s, 'path', other)
    same_text(to_str(I, s), text, 'path-changes', 'setting the path changes the content')
    before(I, 'path-writes', k)
    I.call(I.getattr(s, 'save'), [])
    same_text(file_text(I, other), text, 'save-path', 'specfile/specfile.py: save() does not write the content to the current path')
    same_text(file_text(I, SPEC), text, 'save-old-path', 'save() changes the file at the old path')


def settings(I):
    """changing settings writes nothing"""
    identity_expand(I)
    lines, text, nl = content()
    s = new_spec(I, text)
    k = len(I.world.events)
    name, v = pick([('autosave', True), ('sourcedir', '/w/x'), ('force_parse', True)], 'setting')
    setattr_(I, s, name, v)
    same_text(to_str(I, s), text, 'setting-changes', 'setting `%s` changes the content' % name)
    before(I, 'setting-writes', k)


def paths(I):
    """save() and reload() use the current path"""
    identity_expand(I)
    lines, text, nl = content()
    s = new_spec(I, text)
    other = '/w/t.spec'
    t2 = join_lines([fresh_str('M', NOT_NL & ~CR, 0, None)])
    put_file(I, other, t2)
    setattr_(I, s, 'path', other)
    k = len(I.world.events)
    if cur().pick(2, 'save or reload'):
        I.call(I.getattr(s, 'reload'), [])
        same_text(to_str(I, s), t2, 'reload', 'specfile/specfile.py: reload() does not load the content of the current path')
        same_text(file_text(I, other), t2, 'reload-writes', 'reload() changes the file')
    else:
        I.call(I.getattr(s, 'save'), [])
        same_text(file_text(I, other), text, 'save-path', 'specfile/specfile.py: save() does not write the content to the current path')
        same_text(file_text(I, SPEC), text, 'save-old-path', 'save() changes the file at the old path')


def OBLIGATIONS(tier):
    return [Obligation('load, render, save', load_save), Obligation('context exit saves', ctx_exit), Obligation('readers write nothing', readers, split=2, quick=(2000, 60)),
            Obligation('path of save and reload', paths), Obligation('new path', new_path), Obligation('settings', settings)]
