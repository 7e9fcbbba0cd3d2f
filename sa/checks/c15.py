"""C15: copies are complete and independent, inputs and outputs are never shared, rendering is pure."""
from ..scn import *
from .c10 import sect, h

EXPLANATION = (
    'Abstract interpretation of copying, constructing, parsing and rendering: for every kind of object and every way of changing it, the text of the other copy '
    '(original, caller\'s list, returned list) before and after the change is compared.')
RULE = ('deepcopy(x) == x with the same text, until one of them changes (tags, macro definitions, changelog, source list); change(copy) does not change the text of x and vice versa; a list of lines or items passed in or returned is not shared; '
        'rendering and comparing twice gives the same and changes nothing; items of a shallow copy can be added and removed without affecting the original list')
ASSUMPTIONS = ['one change per path', 'the result of Section.get_raw_data for the preamble is used read-only']


def fail(key, msg, show=None):
    raise Violation(key, msg, None, show)


def call(I, o, m, *a, **k):
    return I.call(I.getattr(o, m), list(a), k)


def index(I, v, i):
    return call(I, v, '__getitem__', i)


def deepcopy(I, o):
    return I.call(I.getattr(I.load_module('copy'), 'deepcopy'), [o])


def raw(name):
    return lambda I, o: [to_text(I, x) for x in items(I, call(I, o, name))]


def to_text(I, x):
    return x




def put(*path):
    """set an attribute reached over indices and attributes"""
    *p, last = path

    def f(I, o):
        for x in p:
            o = index(I, o, x) if isinstance(x, int) else I.getattr(o, x)
        v = cat('Z', h('z'))
        if isinstance(last, int):
            call(I, o, '__setitem__', last, v)
        else:
            I.setattr(o, last, v)
    f.name = '.'.join(map(str, path)) + ' = ...'
    return f


def do(name, fn):
    fn.name = name
    return fn


def meth(*path):
    """call a method reached over indices and attributes; last element is (name, args)"""
    *p, (m, a) = path

    def f(I, o):
        for x in p:
            o = index(I, o, x) if isinstance(x, int) else I.getattr(o, x)
        call(I, o, m, *a)
    f.name = '.'.join(map(str, p + [m])) + '()'
    return f


def delete(i):
    def f(I, o):
        call(I, o, '__delitem__', i)
    f.name = 'del [%r]' % i
    return f


TAG_LINES = lambda: ['', '# c', 'Name: a', '%foo', '# d', cat('Version: ', h()), '', 'Source0: s', '', '# end']
MD_LINES = lambda: ['# c', '%global abc x', '', cat('%define bcd(o:) ', h()), 'text', '']
PREP_LINES = lambda: ['%setup -q -n x', '# c', cat('echo ', h()), '%patch -P 1 -p1', '', 'x']
CL_LINES = lambda: ['text', '', '* Mon Jan 01 2024 A <a@b> - 1-1', cat('- ', h()), '', '* Sun Dec 31 2023 A <a@b> - 1-0', '- old', '']
SL_LINES = lambda: ['# c', 'a', '', cat('b', h()), '# d', 'c', '']
SEC_LINES = lambda: ['Name: n', '', '%package -n x', 'Summary: s', '%files -n x -f y', cat('z', h()), '', '%changelog']


def p_tags(I, ls):
    return I.call(get(I, 'tags.Tags.parse'), [sect(I, 'package', ls)])


def p_md(I, ls):
    return I.call(get(I, 'macro_definitions.MacroDefinitions.parse'), [VList(list(ls))])


def p_prep(I, ls):
    return I.call(get(I, 'prep.Prep.parse'), [sect(I, 'prep', ls)])


def p_cl(I, ls):
    return I.call(get(I, 'changelog.Changelog.parse'), [sect(I, 'changelog', ls)])


def p_sl(I, ls):
    return I.call(get(I, 'sourcelist.Sourcelist.parse'), [sect(I, 'sourcelist', ls)])


def p_sec(I, ls):
    return I.call(get(I, 'sections.Sections.parse'), [VList(list(ls))])


def p_one(I, ls):
    return items(I, p_sec(I, ls))[2]


def new_item(kind):
    from . import c10
    return {'tags': c10.new_tag, 'md': c10.new_md, 'prep': c10.new_prep, 'sl': c10.new_sl}[kind]


def add(kind, pos):
    def f(I, o):
        o = I.getattr(o, 'macros') if kind == 'prep' else o
        it = new_item(kind)(I)[0]
        if pos is None:
            call(I, o, 'append', it)
        else:
            call(I, o, 'insert', pos, it)
    f.name = 'insert at %s' % pos
    return f


def OBJECTS():
    return {
        'Tags': (TAG_LINES, p_tags, raw('get_raw_section_data'), [put(0, 'value'), put(1, 'value'), put('version', 'value'), meth(0, 'comments', ('append', ('new',))), put(0, 'comments', 0, 'text'),
                                                                 delete(0), delete(-1), delete(1), add('tags', 0), add('tags', None), meth(1, 'comments', ('clear', ()))]),
        'MacroDefinitions': (MD_LINES, p_md, raw('get_raw_data'), [put(0, 'body'), put(1, 'body'), put(0, 'name'), delete(0), delete(-1), add('md', 0), add('md', None)]),
        'Prep': (PREP_LINES, p_prep, raw('get_raw_section_data'), [put('macros', 0, 'options', 'n'), meth('macros', 1, 'options', 'positional', ('append', (3,))), do('del option', lambda I, o: I.delattr(I.getattr(index(I, I.getattr(o, 'macros'), 0), 'options'), 'q')),
                                                                  do('number', lambda I, o: I.setattr(index(I, I.getattr(o, 'macros'), 1), 'number', 5)), meth(('add_patch_macro', (2,))), meth(('remove_patch_macro', (1,))),
                                                                  do('del first', lambda I, o: call(I, I.getattr(o, 'macros'), '__delitem__', 0)), add('prep', None)]),
        'Changelog': (CL_LINES, p_cl, raw('get_raw_section_data'), [put(0, 'header'), put(1, 'content', 0), meth(0, 'content', ('append', ('- y',))), delete(0), delete(1)]),
        'Sourcelist': (SL_LINES, p_sl, raw('get_raw_section_data'), [put(0, 'location'), put(2, 'location'), put(0, 'comments', 0, 'text'), meth(1, 'comments', ('append', ('new',))), delete(0), delete(-1), add('sl', 1), add('sl', None)]),
        'Sections': (SEC_LINES, p_sec, raw('get_raw_data'), [put(0, 0), put(2, 0), meth(1, ('append', ('x',))), meth(3, ('insert', (0, 'x'))), put(2, 'options', 'f'), meth(2, 'options', 'positional', ('append', ('p',))), delete(1), delete(-1)]),
        'Section': (SEC_LINES, p_one, raw('get_raw_data'), [put(0), meth(('append', ('x',))), meth(('insert', (0, 'x'))), put('options', 'n'), do('del option', lambda I, o: I.delattr(I.getattr(o, 'options'), 'f')), delete(0), put('name')]),
    }


def deep(kind):
    lines, parse, text, muts = OBJECTS()[kind]

    def f(I):
        identity_expand(I)
        ls = lines()
        m = pick(muts, 'change')
        x = parse(I, ls)
        before = text(I, x)
        y = no_raise(I, 'deepcopy', 'deepcopy() of %s' % kind, lambda: deepcopy(I, x), show_lines(ls))
        if I.truth(I.eq(x, y)) is not True:
            fail('unequal', 'a deep copy of %s is not equal to the original' % kind, show_lines(ls))
        same_lines(text(I, y), before, 'copy-differs', 'a deep copy of %s has another text' % kind)
        a, b, who = (x, y, 'the original') if cur().pick(2, 'change the copy') else (y, x, 'the copy')
        try:
            m(I, b)
        except AbsRaise as e:
            raise Imprecise('change raises %s' % exc_name(e))
        same_lines(text(I, a), before, 'shared', '%s of %s: %s changes as well' % (m.name, 'a deep copy of ' + kind if who == 'the original' else kind, who))
        after = text(I, b)
        if kind in ('Tags', 'MacroDefinitions', 'Changelog', 'Sourcelist') and I.truth(I.eq(a, b)) is True:
            raise Violation('equal', '%s of %s: the copies are still equal though their text differs' % (m.name, kind), lambda env: conc_lines(after, env) != conc_lines(before, env), lambda env: '%r and %r' % (conc_lines(before, env), conc_lines(after, env)))
        same_lines(text(I, b), after, 'impure', 'rendering %s twice gives different lines' % kind)
    return f


def pure(kind):
    lines, parse, text, muts = OBJECTS()[kind]

    def f(I):
        identity_expand(I)
        ls = lines()
        if kind in ('MacroDefinitions', 'Sections'):
            src = VList(list(ls))
            x = I.call(get(I, {'MacroDefinitions': 'macro_definitions.MacroDefinitions.parse', 'Sections': 'sections.Sections.parse'}[kind]), [src])
            out = lambda: src.items
        elif kind == 'Section':
            src = VList(list(ls))
            x = I.call(get(I, 'sections.Section'), ['files'], {'data': src})
            out = lambda: src.items
        else:
            sec = sect(I, 'package', ls)
            x = I.call(get(I, {'Tags': 'tags.Tags.parse', 'Prep': 'prep.Prep.parse', 'Changelog': 'changelog.Changelog.parse', 'Sourcelist': 'sourcelist.Sourcelist.parse'}[kind]), [sec])
            out = lambda: items(I, sec)
        same_lines(list(out()), ls, 'input', 'parsing %s changes the lines passed in' % kind)
        first = text(I, x)
        r = call(I, x, 'get_raw_data') if kind in ('MacroDefinitions', 'Sections', 'Section') else call(I, x, 'get_raw_section_data')
        how = pick(['equality', 'str', 'result', 'change'], 'use')
        if how == 'equality':
            I.eq(x, x)
            I.eq(x, parse(I, lines()))
        elif how == 'str':
            if kind in ('Sections', 'Section'):
                to_str(I, x)
            else:
                text(I, x)
        elif how == 'result':
            call(I, r, 'append', 'added by the caller')
            call(I, r, '__setitem__', 0, 'overwritten by the caller')
        else:
            m = pick(muts, 'change')
            try:
                m(I, x)
            except AbsRaise as e:
                if kind == 'Section':
                    raise Infeasible('other options')
                raise Imprecise('change raises %s' % exc_name(e))
            same_lines(list(out()), ls, 'input', 'changing %s changes the lines it was read from' % kind)
            return
        same_lines(text(I, x), first, 'impure', '%s changes by %s' % (kind, {'equality': 'comparing it', 'str': 'rendering it', 'result': 'changing the returned lines'}[how]))
        same_lines(list(out()), ls, 'input', 'the lines %s was read from change' % kind)
    return f


CONTAINERS = {'Tags': ('tags.Tags', 'tags', None), 'MacroDefinitions': ('macro_definitions.MacroDefinitions', 'md', None), 'PrepMacros': ('prep.PrepMacros', 'prep', None), 'Sourcelist': ('sourcelist.Sourcelist', 'sl', None)}


def build(kind):
    """containers built from a list of items"""
    cls, k, _ = CONTAINERS[kind]

    def f(I):
        its = [new_item(k)(I)[0] for _ in range(3)]
        src = VList(list(its))
        rem = VList(['# end'])
        c = get(I, cls)
        x = I.call(c, [src, rem])
        what = pick(['change the list', 'change the container', 'copy', 'slice', 'changed remainder', 'deepcopy'], 'use')

        def same(got, want, key, msg):
            got = [o for o in got]
            if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                fail(key, msg)
        new = new_item(k)(I)[0]
        ch = pick(['append', 'insert', 'delete', 'replace'], 'change')

        def change(o):
            if ch == 'append':
                call(I, o, 'append', new)
            elif ch == 'insert':
                call(I, o, 'insert', 0, new)
            elif ch == 'delete':
                call(I, o, '__delitem__', 1)
            else:
                call(I, o, '__setitem__', 0, new)
        if what == 'change the list':
            change(src)
            same(items(I, x), its, 'shared-list', '%s shares its items with the list it was built from' % kind)
        elif what == 'change the container':
            change(x)
            same(src.items, its, 'shared-list', '%s changes the list it was built from' % kind)
        elif what == 'changed remainder':
            before = items(I, call(I, x, 'get_raw_section_data' if k in ('tags', 'sl') else 'get_raw_data'))
            call(I, rem, 'append', 'x')
            same_lines(items(I, call(I, x, 'get_raw_section_data' if k in ('tags', 'sl') else 'get_raw_data')), before, 'shared-list', '%s shares the remaining lines with the list passed in' % kind)
        elif what == 'deepcopy':
            y = deepcopy(I, x)
            if any(a is b for a, b in zip(items(I, x), items(I, y))):
                fail('shared-item', 'a deep copy of %s shares its items' % kind)
        else:
            y = call(I, x, 'copy') if what == 'copy' else index(I, x, VSlice(None, None, None))
            if not isinstance(y, VObj) or y.cls is not x.cls:
                fail('copy-type', 'a %s of %s is not %s' % (what, kind, kind))
            if I.truth(I.eq(x, y)) is not True:
                fail('unequal', 'a %s of %s is not equal to the original' % (what, kind))
            a, b = (x, y) if cur().pick(2, 'change the copy') else (y, x)
            change(b)
            same(items(I, a), its, 'shared-list', 'the items of %s and a %s of it are one list' % (kind, what))
    return f


def lines_of(I, o, k):
    if k == 'Options':
        return [to_str(I, o)]
    if k == 'Token':
        return [to_str(I, o)]
    if k in ('Tag', 'SourcelistEntry', 'ChangelogEntry'):
        C = get(I, {'Tag': 'tags.Tags', 'SourcelistEntry': 'sourcelist.Sourcelist', 'ChangelogEntry': 'changelog.Changelog'}[k])
        return items(I, call(I, I.call(C, [VList([o])]), 'get_raw_section_data'))
    return items(I, call(I, o, 'get_raw_section_data' if k in ('Changelog', 'Prep') else 'get_raw_data'))


def ingredients(I):
    """objects built from other objects: (kind, object, what was passed in, ways of changing what was passed in, its text)"""
    C = lambda d, *a, **k: I.call(get(I, d), list(a), k)
    tok = lambda s: I.call(get(I, 'options.Options.tokenize'), [s])
    comments = lambda: C('tags.Comments', VList([C('tags.Comment', 'c')]), VList(['p']))
    opts = lambda: C('options.Options', tok('-q -n x'), 'qn:T')
    add_line = [lambda o: call(I, o, 'append', 'added'), lambda o: call(I, o, '__delitem__', 0), lambda o: call(I, o, 'insert', 0, 'added')]
    as_lines = lambda o: list(o.items)
    ch_comments = [lambda o: call(I, o, 'append', 'added'), lambda o: call(I, o, '__delitem__', 0), lambda o: call(I, o, 'insert', 0, C('tags.Comment', 'x'))]
    c_text = lambda o: items(I, call(I, o, 'get_raw_data'))
    ch_opts = [lambda o: I.setattr(o, 'n', 'other'), lambda o: I.setattr(o, 'q', False), lambda o: I.setattr(o, 'T', True), lambda o: call(I, I.getattr(o, 'positional'), 'append', 'p')]
    o_text = lambda o: [to_str(I, o)]
    style = lambda: I.getattr(get(I, 'macro_definitions.CommentOutStyle'), 'DNL')
    md = lambda pre: C('macro_definitions.MacroDefinition', 'a', 'b', True, False, style(), ('', ' ', ' ', ''), preceding_lines=pre)
    L = lambda *a: VList(list(a) or ['l', 'm'])
    which = pick(['Tag/comments', 'SourcelistEntry/comments', 'PrepMacro/options', 'PrepMacro/lines', 'Section/options', 'Section/lines', 'Options/tokens', 'ChangelogEntry/content', 'ChangelogEntry/lines', 'MacroDefinition/lines',
                  'Comments/list', 'Comments/lines', 'Changelog/list', 'Changelog/lines', 'Prep/macros'], 'ingredient')
    k, part = which.split('/')
    back = []           # ways of changing the object
    if k == 'Tag':
        p = comments()
        o = C('tags.Tag', 'Name', 'n', ': ', p)
        back = [lambda o: f(I.getattr(o, 'comments')) for f in ch_comments]
        return which, k, o, p, ch_comments, c_text, back
    if k == 'SourcelistEntry':
        p = comments()
        o = C('sourcelist.SourcelistEntry', 'loc', p)
        return which, k, o, p, ch_comments, c_text, [lambda o: call(I, I.getattr(o, 'comments'), 'append', 'added')]
    if k == 'PrepMacro':
        p = opts() if part == 'options' else L()
        o = C('prep.SetupMacro', '%setup', p if part == 'options' else opts(), ' ', preceding_lines=p if part != 'options' else None)
        if part == 'options':
            return which, k, o, p, ch_opts, o_text, [lambda o: I.setattr(I.getattr(o, 'options'), 'n', 'other'), lambda o: I.delattr(I.getattr(o, 'options'), 'q')]
        return which, k, o, p, add_line, as_lines, []
    if k == 'Section':
        p = opts() if part == 'options' else L()
        o = C('sections.Section', 'files', p if part == 'options' else opts(), ' ', data=p if part != 'options' else L())
        if part == 'options':
            return which, k, o, p, ch_opts, o_text, [lambda o: I.setattr(I.getattr(o, 'options'), 'n', 'other'), lambda o: I.delattr(I.getattr(o, 'options'), 'q')]
        return which, k, o, p, add_line, as_lines, add_line
    if k == 'Options':
        p = tok('-q -n x')
        o = C('options.Options', p, 'qn:T')
        return which, k, o, p, [lambda o: call(I, o, '__delitem__', 0), lambda o: call(I, o, 'clear')], lambda o: [to_str(I, x) for x in items(I, o)], [lambda o: I.delattr(o, 'q'), lambda o: I.setattr(o, 'T', True)]
    if k == 'ChangelogEntry':
        p = L()
        o = C('changelog.ChangelogEntry', '* h', p, L('')) if part == 'content' else C('changelog.ChangelogEntry', '* h', L('- x'), p)
        return which, k, o, p, add_line, as_lines, [lambda o: call(I, I.getattr(o, 'content'), 'append', 'x')] if part == 'content' else []
    if k == 'MacroDefinition':
        p = L()
        return which, k, md(p), p, add_line, as_lines, []
    if k == 'Comments':
        p = VList([C('tags.Comment', 'c'), C('tags.Comment', 'd')]) if part == 'list' else L()
        o = C('tags.Comments', p, L()) if part == 'list' else C('tags.Comments', VList([]), p)
        if part == 'list':
            return which, k, o, p, [lambda o: call(I, o, '__delitem__', 0), lambda o: call(I, o, 'append', C('tags.Comment', 'e'))], lambda o: [to_str(I, x) for x in items(I, o)], ch_comments
        return which, k, o, p, add_line, as_lines, []
    if k == 'Changelog':
        e = lambda t: C('changelog.ChangelogEntry', '* ' + t, L('- x'), L(''))
        p = VList([e('a'), e('b')]) if part == 'list' else L()
        o = C('changelog.Changelog', p, L()) if part == 'list' else C('changelog.Changelog', VList([e('a')]), p)
        if part == 'list':
            return which, k, o, p, [lambda o: call(I, o, '__delitem__', 0), lambda o: call(I, o, 'append', e('c'))], lambda o: [I.getattr(x, 'header') for x in items(I, o)], [lambda o: call(I, o, '__delitem__', 0), lambda o: call(I, o, 'append', e('c'))]
        return which, k, o, p, add_line, as_lines, []
    p = C('prep.PrepMacros', VList([new_item('prep')(I)[0]]), L())
    o = C('prep.Prep', p)
    return which, k, o, p, [lambda o: call(I, o, 'append', new_item('prep')(I)[0]), lambda o: call(I, o, '__delitem__', 0)], c_text, [lambda o: call(I, I.getattr(o, 'macros'), 'append', new_item('prep')(I)[0])]


def parts(I):
    which, k, o, p, muts, ptext, back = ingredients(I)
    before, pbefore = list(lines_of(I, o, k)), list(ptext(p))
    if back and cur().pick(2, 'change the object'):
        f = pick(back, 'change')
        f(o)
        same_lines(list(ptext(p)), pbefore, 'shared-part', 'changing an object changes what it was built from (%s)' % which)
    else:
        f = pick(muts, 'change')
        f(p)
        same_lines(list(lines_of(I, o, k)), before, 'shared-part', 'changing what an object was built from changes the object (%s)' % which)


def defaults(I):
    """the defaults of one kind of macro are not shared by its options"""
    d = I.call(I.builtins['dict'], [])
    call(I, d, '__setitem__', 'n', 'default')
    O = get(I, 'options.Options')
    o = I.call(O, [VList([]), 'qn:', d])
    which = pick(['caller', 'object'], 'change')
    if which == 'caller':
        call(I, d, '__setitem__', 'n', 'other')
        if I.getattr(o, 'n') != 'default':
            fail('shared-part', 'specfile/options.py: options share their defaults with the caller')
    else:
        call(I, I.getattr(o, 'defaults'), '__setitem__', 'n', 'other')
        if call(I, d, '__getitem__', 'n') != 'default':
            fail('shared-part', 'specfile/options.py: changing the defaults of options changes what they were built from')


BODY = ['%global abc 1', 'Name: n', 'Version: 1', 'Release: 1', 'Source0: s', '%description', 'd', '%prep', '%setup -q', '%changelog', '* Mon Jan 01 2024 A <a@b> - 1-1', '- x']


def specfile(I):
    identity_expand(I)
    ls = list(BODY)
    ls[6] = cat('d', h())
    macros = VList([('m', '1'), ('n', None)])
    autosave = bool(cur().pick(2, 'autosave'))
    force = bool(cur().pick(2, 'force_parse'))
    s = new_spec(I, ls, sourcedir='/d/src', autosave=autosave, macros=macros, force_parse=force)
    call(I, macros, 'append', ('caller', '1'))
    k = len(I.world.events)
    t = no_raise(I, 'deepcopy', 'deepcopy() of a spec file', lambda: deepcopy(I, s))
    text = join_lines(ls)
    if I.truth(I.eq(s, t)) is not True:
        fail('unequal', 'a copy of a spec file is not equal to the original')
    same_text(to_str(I, t), text, 'copy-differs', 'a copy of a spec file has another text')
    for a in ('path', 'sourcedir', 'autosave', 'force_parse'):
        x, y = I.getattr(s, a), I.getattr(t, a)
        if is_str(x) or isinstance(x, bool):
            if x != y:
                fail('attribute', 'a copy of a spec file has another %s' % a)
        else:
            same_text(to_str(I, y), to_str(I, x), 'attribute', 'a copy of a spec file has another %s' % a)
    a, b = (s, t) if cur().pick(2, 'change the copy') else (t, s)
    what = pick(['lines', 'tags', 'path', 'sourcedir', 'macros', 'autosave', 'force_parse', 'release', 'macro_definitions'], 'change')
    va = {n: I.getattr(a, n) for n in ('autosave', 'force_parse')}
    pa = {n: to_str(I, I.getattr(a, n)) for n in ('path', 'sourcedir')}
    ma = [x for x in items(I, I.getattr(a, 'macros'))]
    if any(isinstance(x, tuple) and x[0] == 'caller' for x in ma):
        fail('macros', 'a spec file shares the list of macros with its caller')
    if what == 'lines':
        with_view(I, call(I, b, 'lines'), lambda v: call(I, v, 'append', 'new'))
    elif what == 'tags':
        with_view(I, call(I, b, 'tags'), lambda v: I.setattr(I.getattr(v, 'version'), 'value', '2'))
    elif what == 'macro_definitions':
        with_view(I, call(I, b, 'macro_definitions'), lambda v: I.setattr(index(I, v, 0), 'body', '2'))
    elif what in ('path', 'sourcedir'):
        I.setattr(b, what, I.call(I.getattr(I.load_module('pathlib'), 'Path'), ['/other/x.spec']))
    elif what == 'macros':
        call(I, I.getattr(b, 'macros'), 'append', ('x', '1'))
    elif what in ('autosave', 'force_parse'):
        I.setattr(b, what, not I.getattr(b, what))
    else:
        I.setattr(b, 'release', '7')
    same_text(to_str(I, a), text, 'shared', 'changing %s of a spec file changes the text of a copy of it' % what)
    for n in va:
        if I.getattr(a, n) is not va[n]:
            fail('shared', 'changing %s of a spec file changes %s of a copy of it' % (what, n))
    for n in pa:
        same_text(to_str(I, I.getattr(a, n)), pa[n], 'shared', 'changing %s of a spec file changes %s of a copy of it' % (what, n))
    mb = [x for x in items(I, I.getattr(a, 'macros'))]
    if mb != ma:
        fail('shared', 'changing %s of a spec file changes the macros of a copy of it' % what)


def p_comments(I, ls):
    return I.getattr(index(I, p_tags(I, ['Name: n', '# a', cat('# b', h()), 'Version: 1']), 1), 'comments')


def shallow(I):
    """a shallow copy is of the same kind, holds the same items and has a list of its own"""
    identity_expand(I)
    objs = {k: v for k, v in OBJECTS().items() if k != 'Prep'}
    kind = pick(sorted(objs) + ['Comments', 'PrepMacros'], 'kind')
    if kind == 'Comments':
        x, text = p_comments(I, None), raw('get_raw_data')
    elif kind == 'PrepMacros':
        x, text = I.getattr(p_prep(I, PREP_LINES()), 'macros'), raw('get_raw_data')
    else:
        lines, parse, text, _ = objs[kind]
        x = parse(I, lines())
    how = pick(['copy()', 'copy.copy()', 'slice'], 'how')
    if how == 'copy()':
        y = no_raise(I, 'copy', 'copy() of %s' % kind, lambda: call(I, x, 'copy'), None)
    elif how == 'copy.copy()':
        y = no_raise(I, 'copy', 'copy.copy() of %s' % kind, lambda: I.call(I.getattr(I.load_module('copy'), 'copy'), [x]), None)
    else:
        y = index(I, x, VSlice(None, None, None))
        if kind == 'Section':
            same_lines(items(I, y), items(I, x), 'copy-differs', 'a slice of a section has other lines')
            y = None
    if y is None:
        return
    if not isinstance(y, VObj) or y.cls is not x.cls:
        fail('copy-type', '%s of %s is not %s' % (how, kind, kind))
    if y is x:
        fail('shared-list', '%s of %s is the very same object' % (how, kind))
    before = text(I, x)
    if how != 'slice' or kind != 'Changelog':
        same_lines(text(I, y), before, 'copy-differs', '%s of %s has another text' % (how, kind))
    a, b = (x, y) if cur().pick(2, 'change the copy') else (y, x)
    old = list(items(I, a))
    ch = pick(['del', 'pop', 'reverse', 'append'], 'change')
    if ch == 'append':
        call(I, I.getattr(b, 'data'), 'append', old[0])
    elif ch == 'del':
        call(I, I.getattr(b, 'data'), '__delitem__', 0)
    else:
        call(I, I.getattr(b, 'data'), ch)
    new = items(I, a)
    if len(new) != len(old) or any(p is not q for p, q in zip(old, new)):
        fail('shared-list', 'the items of %s and %s of it are one list' % (kind, how))


def OBLIGATIONS(tier):
    out = [Obligation('shallow copies', shallow, quick=(1500, 60))]
    for k in OBJECTS():
        out.append(Obligation('deep copy of %s' % k, deep(k), quick=(1500, 60)))
        out.append(Obligation('reading and rendering %s' % k, pure(k), quick=(1500, 60)))
    for k in CONTAINERS:
        out.append(Obligation('building %s' % k, build(k), quick=(1500, 60)))
    out.append(Obligation('ingredients', parts, quick=(1500, 60)))
    out.append(Obligation('defaults', defaults))
    out.append(Obligation('spec file', specfile, split=2, quick=(1500, 60)))
    return out
