"""C17: lookup, assignment and deletion by name."""
from ..scn import *
from .c11 import Truth, setup
from .c10 import sect, h

EXPLANATION = (
    'Abstract interpretation of lookup (attribute, get, find, membership), assignment and deletion by name on containers whose items have equal, differently '
    'spelled, similar or other names and whose validity is left open. The item affected is compared with the reference rule; the lines written back must differ from the original ones '
    'exactly in that item.')
RULE = ('item(name) = first valid item with that name, else first item with that name; names of tags and sections are compared case-insensitively (options of '
        'sections exactly), names of macro definitions and %prep macros exactly; assignment and deletion by name affect exactly that item; an unknown name is refused')
ASSUMPTIONS = ['three items per container', 'names do not collide with methods of the containers']


def fail(key, msg, show=None):
    raise Violation(key, msg, None, show)


def raises(I, fn, name):
    try:
        fn()
    except AbsRaise as e:
        return any(c.name == name for c in e.exc.cls.mro)
    return False


class Kind:
    pass


class TagKind(Kind):
    what = 'tag'
    where = 'specfile/tags.py'
    # spelling in the text; spellings to look up
    names = ['Name', 'NAME', 'Version']
    queries = ['name', 'Name', 'VERSION', 'epoch']
    key = staticmethod(lambda n: n.lower())

    @staticmethod
    def line(n, v, form=('', '')):
        return cat(form[0], n, ': ', v, form[1])
    forms = [('', ''), ('%{?x:', '}')]

    @staticmethod
    def parse(I, ls):
        return I.call(get(I, 'tags.Tags.parse'), [sect(I, 'package', ls)])

    @staticmethod
    def raw(I, v):
        return items(I, I.call(I.getattr(v, 'get_raw_section_data'), []))
    attr = 'value'

    @staticmethod
    def new(I, v):
        return I.call(get(I, 'tags.Tag'), ['Epoch', v, ': ', I.call(get(I, 'tags.Comments'), [])])
    newline = staticmethod(lambda v: cat('Epoch: ', v))


class MdKind(Kind):
    what = 'macro definition'
    where = 'specfile/macro_definitions.py'
    names = ['abc', 'Abc', 'abcd']
    queries = ['abc', 'Abc', 'ABC', 'abcd', 'zzz']
    key = staticmethod(lambda n: n)

    @staticmethod
    def line(n, v, form='%global '):
        return cat(form, n, ' ', v)
    forms = ['%global ', '%define  ', '%dnl %global ', '#global ']

    @staticmethod
    def parse(I, ls):
        return I.call(get(I, 'macro_definitions.MacroDefinitions.parse'), [VList(list(ls))], {'with_conditions': True})

    @staticmethod
    def raw(I, v):
        return items(I, I.call(I.getattr(v, 'get_raw_data'), []))
    attr = 'body'

    @staticmethod
    def new(I, v):
        return I.call(get(I, 'macro_definitions.MacroDefinition'), ['zzz', v, True, False, I.getattr(get(I, 'macro_definitions.CommentOutStyle'), 'DNL'), ('', ' ', ' ', '')])
    newline = staticmethod(lambda v: cat('%global zzz ', v))


def choose(K, names, valid, q):
    m = [i for i, n in enumerate(names) if K.key(n) == K.key(q)]
    if not m:
        return None
    ok = [i for i in m if valid[i]]
    return (ok or m)[0]


def conditional(K):
    def f(I):
        t = Truth()
        setup(I, t)
        n = 3
        names = [pick(K.names, 'name %d' % i) for i in range(n)]
        if len(set(K.key(x) for x in names)) == n:
            raise Infeasible('no two alike')
        conds = [pick([False, True], 'conditional %d' % i) for i in range(n)]
        vals = ['v%d' % i for i in range(n)]
        if K is TagKind:
            vals[2] = cat('v', h())
        ls, at = [], []
        forms = [pick(K.forms, 'form')] + [K.forms[0]] * (n - 1)
        for i in range(n):
            if conds[i]:
                ls.append('%%if c%d' % i)
            at.append(len(ls))
            ls.append(K.line(names[i], vals[i], forms[i]))
            if conds[i]:
                ls.append('%endif')
        v = K.parse(I, ls)
        valid = [not conds[i] or t.of('c%d' % i) for i in range(n)]
        q = pick(K.queries, 'name looked up')
        op = pick(['find', 'attribute', 'in', 'assign text', 'assign item', 'delete', 'position'], 'operation')
        want = choose(K, names, valid, q)
        show = lambda env: '%r, name %s, %s' % (conc_lines(ls, env), q, op)
        where = K.where
        if len(items(I, v)) != n:
            fail('items', '%s: %d items are recognised instead of %d' % (where, len(items(I, v)), n), show)
        if op == 'in':
            if bool(I.truth(I.call(I.getattr(v, '__contains__'), [q]))) != (want is not None):
                fail('membership', '%s: membership of a %s by name is wrong' % (where, K.what), show)
            return
        if op == 'position':
            its = items(I, v)
            for i in range(n):
                p = I.call(I.getattr(its[i], 'get_position'), [v])
                if K.key(names[i]) == K.key(q):
                    r = no_raise(I, 'position', '%s: find() with the position of an item' % where, lambda: I.call(I.getattr(v, 'find'), [q, p]), show)
                    if r != i:
                        fail('position', '%s: find() with a position finds another %s' % (where, K.what), show)
                elif not raises(I, lambda: I.call(I.getattr(v, 'find'), [q, p]), 'ValueError'):
                    fail('position', '%s: find() finds a %s at a position where there is none of that name' % (where, K.what), show)
            return
        if want is None:
            if op == 'find':
                if not raises(I, lambda: I.call(I.getattr(v, 'find'), [q]), 'ValueError') or not raises(I, lambda: I.call(I.getattr(v, 'get'), [q]), 'ValueError'):
                    fail('unknown', '%s: looking up a missing %s is not refused' % (where, K.what), show)
            elif op == 'attribute':
                if not raises(I, lambda: I.getattr(v, q), 'AttributeError'):
                    fail('unknown', '%s: reading a missing %s as an attribute is not refused' % (where, K.what), show)
            return
        if op == 'find':
            r = no_raise(I, 'lookup', '%s: find()' % where, lambda: I.call(I.getattr(v, 'find'), [q]), show)
            if r != want:
                fail('lookup', '%s: find() returns %r instead of %d' % (where, r, want), show)
            o = I.call(I.getattr(v, 'get'), [q])
            if o is not items(I, v)[want]:
                fail('lookup', '%s: get() returns another %s' % (where, K.what), show)
            return
        if op == 'attribute':
            o = no_raise(I, 'lookup', '%s: attribute access' % where, lambda: I.getattr(v, q), show)
            if o is not items(I, v)[want]:
                fail('lookup', '%s: attribute access returns another %s' % (where, K.what), show)
            return
        exp = list(ls)
        new = cat('z', h('z'))
        if op == 'assign text':
            no_raise(I, 'assign', '%s: assignment by name' % where, lambda: I.setattr(v, q, new), show)
            exp[at[want]] = K.line(names[want], new, forms[want])
        elif op == 'assign item':
            no_raise(I, 'assign', '%s: assignment by name' % where, lambda: I.setattr(v, q, K.new(I, new)), show)
            its = items(I, v)
            if len(its) != n:
                fail('assign', '%s: assignment of a %s by name changes the number of items' % (where, K.what), show)
            same_text(I.getattr(its[want], K.attr), new, 'assign', '%s: the %s assigned by name is not in its place' % (where, K.what))
            for i in range(n):
                if i != want:
                    same_text(I.getattr(its[i], K.attr), vals[i], 'assign', '%s: assignment of a %s by name changes another one' % (where, K.what))
            return
        elif op == 'delete':
            no_raise(I, 'delete', '%s: deletion by name' % where, lambda: I.delattr(v, q), show)
            its = items(I, v)
            if len(its) != n - 1:
                fail('delete', '%s: deletion of a %s by name does not remove exactly one' % (where, K.what), show)
            for o, i in zip(its, [i for i in range(n) if i != want]):
                same_text(I.getattr(o, K.attr), vals[i], 'delete', '%s: deletion of a %s by name removes another one' % (where, K.what))
            return
        same_lines(K.raw(I, v), exp, 'assign', '%s: assignment of a %s by name changes something else' % (where, K.what))
    return f


# header lines, ids that refer to them (reference rule: name case-insensitively, options exactly)
HEADERS = ['%package -n Foo', '%package -n foo', '%PACKAGE Foo', '%files', '%Files', '%files -n Foo', '%description', '%preP']
IDS = ['package', 'package -n Foo', 'PACKAGE -n Foo', 'package -n foo', 'package Foo', 'Package foo', 'files', 'FILES', 'files -n Foo', 'description', 'prep', 'Prep', 'build', 'package -N Foo']


def sid(x):
    a, sp, b = x.partition(' ')
    return a.lower() + sp + b


def sections(I):
    identity_expand(I)
    hs = [pick(HEADERS, 'section %d' % i) for i in range(2)]
    ls = ['Name: n', hs[0], cat('a', h()), hs[1], cat('b', h()), '', '%changelog', 'c']
    v = I.call(get(I, 'sections.Sections.parse'), [VList(list(ls))])
    ids = ['package'] + [x[1:] for x in hs] + ['changelog']
    start = [0, 1, 3, 6]
    end = [1, 3, 6, 8]
    q = pick(IDS, 'id')
    op = pick(['find', 'attribute', 'in', 'assign text', 'assign item', 'delete'], 'operation')
    show = lambda env: '%r, id %r, %s' % (conc_lines(ls, env), q, op)
    m = [i for i, x in enumerate(ids) if sid(x) == sid(q)]
    want = m[0] if m else None
    w = 'specfile/sections.py'
    if op == 'in':
        if bool(I.truth(I.call(I.getattr(v, '__contains__'), [q]))) != (want is not None):
            fail('membership', w + ': membership of a section by id is wrong', show)
        return
    if want is None:
        if op == 'find' and (not raises(I, lambda: I.call(I.getattr(v, 'find'), [q]), 'ValueError') or not raises(I, lambda: I.call(I.getattr(v, 'get'), [q]), 'ValueError')):
            fail('unknown', w + ': looking up a missing section is not refused', show)
        if op == 'attribute' and not raises(I, lambda: I.getattr(v, q), 'AttributeError'):
            fail('unknown', w + ': reading a missing section as an attribute is not refused', show)
        return
    its = items(I, v)
    if op == 'find':
        r = no_raise(I, 'lookup', w + ': find()', lambda: I.call(I.getattr(v, 'find'), [q]), show)
        if r != want:
            fail('lookup', w + ': find() returns %r instead of %d' % (r, want), show)
        if I.call(I.getattr(v, 'get'), [q]) is not its[want]:
            fail('lookup', w + ': get() returns another section', show)
        return
    if op == 'attribute':
        if no_raise(I, 'lookup', w + ': attribute access', lambda: I.getattr(v, q), show) is not its[want]:
            fail('lookup', w + ': attribute access returns another section', show)
        return
    new = [cat('z', h('z'))]
    hdr = [] if want == 0 else [ls[start[want]]]
    if op == 'assign text':
        no_raise(I, 'assign', w + ': assignment by id', lambda: I.setattr(v, q, VList(list(new))), show)
        exp = ls[:start[want]] + hdr + new + ls[end[want]:]
    elif op == 'assign item':
        if want == 0:
            raise Infeasible('the preamble has no header')
        no_raise(I, 'assign', w + ': assignment by id', lambda: I.setattr(v, q, sect(I, 'check', new)), show)
        exp = ls[:start[want]] + ['%check'] + new + ls[end[want]:]
    else:
        if want == 0:
            raise Infeasible('the preamble is not removed')
        no_raise(I, 'delete', w + ': deletion by id', lambda: I.delattr(v, q), show)
        exp = ls[:start[want]] + ls[end[want]:]
    same_lines(items(I, I.call(I.getattr(v, 'get_raw_data'), [])), exp, op.split()[0], w + ': %s of a section by id affects something else' % ('assignment' if op != 'delete' else 'deletion'))


PREP_LINES = ['%setup -q', '%autosetup -p1', '%patch -P 1', '%patch1 -p1', '%patch12', '%autopatch -v', '%{?x:%patch1}', 'echo a']
PREP_NAME = ['setup', 'autosetup', 'patch', 'patch1', 'patch12', 'autopatch', 'patch1', None]


def prep(I):
    ix = [cur().pick(len(PREP_LINES), 'line %d' % i) for i in range(2)]
    ls = [PREP_LINES[i] for i in ix]
    names = [PREP_NAME[i] for i in ix if PREP_NAME[i]]
    q = pick(['setup', 'autosetup', 'patch', 'patch1', 'patch12', 'autopatch', 'patch2'], 'name')
    op = pick(['attribute', 'in', 'delete', 'class'], 'operation')
    direct = cur().pick(2, 'through the list')
    p = I.call(get(I, 'prep.Prep.parse'), [sect(I, 'prep', ls)])
    show = lambda env: '%r, name %s, %s' % (ls, q, op)
    v = I.getattr(p, 'macros') if direct else p
    w = 'specfile/prep.py'
    its = items(I, I.getattr(p, 'macros'))
    if len(its) != len(names):
        fail('prep', w + ': %d macros are recognised instead of %d' % (len(its), len(names)), show)
    if op == 'class':
        classes = {'setup': 'SetupMacro', 'autosetup': 'AutosetupMacro', 'autopatch': 'AutopatchMacro'}
        c = classes.get(q, 'PatchMacro')
        want = any(classes.get(n, 'PatchMacro') == c for n in names)
        if bool(I.truth(I.call(I.getattr(v, '__contains__'), [get(I, 'prep.' + c)]))) != want:
            fail('membership', w + ': membership of a macro by class is wrong', show)
        return
    if op == 'in':
        want = any(n.startswith('patch') for n in names) if q == 'patch' else q in names
        if bool(I.truth(I.call(I.getattr(v, '__contains__'), ['%' + q]))) != want:
            fail('membership', w + ': membership of a macro by name is wrong', show)
        return
    if q not in names:
        fn = (lambda: I.getattr(v, q)) if op == 'attribute' else (lambda: I.delattr(v, q))
        if not raises(I, fn, 'AttributeError'):
            fail('unknown', w + ': %s of a missing macro is not refused' % ('reading' if op == 'attribute' else 'deletion'), show)
        return
    want = names.index(q)
    if op == 'attribute':
        if no_raise(I, 'lookup', w + ': attribute access', lambda: I.getattr(v, q), show) is not its[want]:
            fail('lookup', w + ': attribute access returns another macro', show)
        return
    no_raise(I, 'delete', w + ': deletion by name', lambda: I.delattr(v, q), show)
    k = [i for i in range(2) if PREP_NAME[ix[i]]][want]
    same_lines(items(I, I.call(I.getattr(p, 'get_raw_section_data'), [])), ls[:k] + ls[k + 1:], 'delete', w + ': deletion of a macro by name affects something else')


TAGS = ['name', 'version', 'release', 'summary', 'license', 'epoch', 'url']
SPELL = {'name': 'Name', 'version': 'VERSION', 'release': 'Release', 'summary': 'summary', 'license': 'License', 'epoch': 'Epoch', 'url': 'Url'}


def shortcuts(I):
    identity_expand(I)
    tag = pick(TAGS, 'tag')
    missing = cur().pick(2, 'tag missing')
    op = pick(['read', 'expand', 'assign'], 'operation')
    ls = ['%s: v%d' % (SPELL[t], i) for i, t in enumerate(TAGS) if not (missing and t == tag)] + ['Requires: x', '%description', 'd', '%package y', 'Version: 9', 'Summary: z']
    i = TAGS.index(tag)
    val = cat('v', h())
    if not missing:
        ls[i] = cat(SPELL[tag], ':  ', val)
    s = new_spec(I, ls)
    attr = 'raw_release' if tag == 'release' else tag
    w = 'specfile/specfile.py: '
    if op == 'assign':
        new = cat('z', h('z'))
        if missing:
            if not raises(I, lambda: I.setattr(s, attr, new), 'AttributeError'):
                fail('unknown', w + 'assigning %s of a spec file without that tag is not refused' % attr)
            exp = ls
        else:
            no_raise(I, 'shortcut', w + 'assigning ' + attr, lambda: I.setattr(s, attr, new), show_lines(ls))
            exp = ls[:i] + [cat(SPELL[tag], ':  ', new)] + ls[i + 1:]
        same_text(to_str(I, s), join_lines(exp), 'shortcut', w + 'assigning %s does not change exactly that tag' % attr)
        return
    got = no_raise(I, 'shortcut', w + 'reading ' + attr, lambda: I.getattr(s, attr if op == 'read' else 'expanded_' + attr), show_lines(ls))
    if missing:
        if got is not None:
            fail('shortcut', w + '%s of a spec file without that tag is not None' % attr, show_lines(ls))
        return
    same_text(got, val, 'shortcut', w + '%s is not the value of that tag' % attr)


def OBLIGATIONS(tier):
    q = (6000, 60)
    return [Obligation('tags', conditional(TagKind), split=3, quick=q), Obligation('macro definitions', conditional(MdKind), split=3, quick=q),
            Obligation('sections', sections, split=len(HEADERS), quick=q), Obligation('%prep macros', prep, split=len(PREP_LINES), quick=q), Obligation('spec file attributes', shortcuts, quick=q)]
