"""C10: adding or removing one item leaves every other line alone."""
from ..scn import *

EXPLANATION = (
    'Abstract interpretation of deletion (by positive and negative index, slice and name), insertion and appending on every container over lines '
    'built from items with arbitrary preceding lines (blank lines, comments, lines of no meaning to the view, conditions). The lines written back are '
    'compared with the original lines minus the removed item, or plus the added one.')
RULE = ('delete: non-blank lines written back == non-blank original lines without the item and the comments attached to it; '
        'insert: lines written back without the new line == original lines, the new line lies between its neighbours')
ASSUMPTIONS = ['three items per container; preceding lines from a finite list of shapes with free text', 'UserList methods that the containers do not override (pop, remove, clear) are outside the property']


def h(n='h'):
    return fresh_str(n, LETTER, 1, 1)


def tri(a, b):
    return dom.tri_eq(a, b)


# lines before an item: (kept lines, lines attached to the item)
PRE = [
    lambda: ([], []),
    lambda: ([''], []),
    lambda: ([], [cat('# c', h())]),
    lambda: ([''], [cat('# c', h()), '#']),
    lambda: ([cat('%foo ', h())], []),
    lambda: ([cat('%foo ', h()), ''], [cat('# c', h())]),
    lambda: ([cat('# d', h()), ''], []),
    lambda: (['', '', cat('echo ', h()), '', ''], []),
    lambda: (['%if 1'], []),
    lambda: (['%endif', '', '%if 1'], [cat('# c', h())]),
    lambda: (['', cat('%foo ', h()), '%endif', '', '%endif'], []),
]
POST = [lambda: [], lambda: [''], lambda: [cat('%bar ', h())], lambda: ['', cat('%bar ', h()), '']]


class K:
    def __init__(self, name, items, parse, raw, newitem, newlines, names=None, attached=True, pre=PRE, post=POST):
        self.__dict__.update(locals())


def sect(I, name, lines):
    return I.call(get(I, 'sections.Section'), [name], {'data': VList(list(lines))})


def p_tags(I, ls):
    return I.call(get(I, 'tags.Tags.parse'), [sect(I, 'package', ls)])


def p_md(I, ls):
    return I.call(get(I, 'macro_definitions.MacroDefinitions.parse'), [VList(list(ls))])


def p_prep(I, ls):
    return I.call(get(I, 'prep.Prep.parse'), [sect(I, 'prep', ls)])


def p_sl(I, ls):
    return I.call(get(I, 'sourcelist.Sourcelist.parse'), [sect(I, 'sourcelist', ls)])


def raw(I, v):
    return items(I, I.call(I.getattr(v, 'get_raw_section_data'), []))


def raw_md(I, v):
    return items(I, I.call(I.getattr(v, 'get_raw_data'), []))


def raw_prep(I, v):
    return items(I, I.call(I.getattr(v, 'get_raw_data'), []))


def comments(I):
    return I.call(get(I, 'tags.Comments'), [])


def new_tag(I):
    m = h('new')
    return I.call(get(I, 'tags.Tag'), ['License', cat('z', m), ': ', comments(I)]), [cat('License: z', m)]


def new_md(I):
    m = h('new')
    return I.call(get(I, 'macro_definitions.MacroDefinition'), ['zz', cat('z', m), True, False, I.getattr(get(I, 'macro_definitions.CommentOutStyle'), 'DNL'), ('', ' ', ' ', '')]), [cat('%global zz z', m)]


def new_prep(I):
    pm = get(I, 'prep.AutopatchMacro')
    o = I.call(get(I, 'options.Options'), [I.call(get(I, 'options.Options.tokenize'), ['-p1']), I.getattr(pm, 'OPTSTRING'), I.getattr(pm, 'DEFAULTS')])
    return I.call(pm, ['%autopatch', o, ' ']), ['%autopatch -p1']


def new_sl(I):
    m = h('new')
    return I.call(get(I, 'sourcelist.SourcelistEntry'), [cat('z', m), comments(I)]), [cat('z', m)]


NOCOND = [p for i, p in enumerate(PRE) if i < 8]
NOTEXT = [PRE[0], PRE[1], PRE[2], PRE[3], PRE[6]]


def containers():
    return [
        K('tags', [lambda: [cat('Name: ', h())], lambda: [cat('Version:  ', h(), '%{?x:', h()), cat(h(), '}')], lambda: [cat('Epoch: ', h())]], p_tags, raw, new_tag, None, ['name', 'VERSION', 'Epoch']),
        K('macro definitions', [lambda: ['%global a  x y '], lambda: ['%define  bb() z\\', cat(' ', h())], lambda: ['%global c %{expand:', cat(h(), '}')]], p_md, raw_md, new_md, None, ['a', None, 'c'], attached=False),
        K('%prep macros', [lambda: ['%setup -q'], lambda: ['%{?x:%patch -P 1}'], lambda: ['%autopatch -v']], lambda I, ls: I.getattr(p_prep(I, ls), 'macros'), raw_prep, new_prep, None, ['setup', 'patch', 'autopatch'], attached=False),
        K('%sourcelist', [lambda: [cat('a', h())], lambda: [cat('b', h())], lambda: [cat('c', h())]], p_sl, raw, new_sl, None, None, pre=NOTEXT, post=POST[:2]),
    ]


def build(k):
    n = 2 + (cur().pick(2, 'third item') if len(k.items) > 2 else 0)
    blocks = []
    free = cur().pick(n, 'item with free surroundings')
    its = k.items[:n]
    for j, it in enumerate(its):
        # the item acted upon, its successor: any surroundings
        kept, own = pick(k.pre, 'preceding lines %d' % j)() if j == free else pick(k.pre[::2] + k.pre[-2:][:len(k.pre) // 10 + 1], 'preceding lines %d' % j)() if j == free + 1 else ([], [])
        blocks.append((kept, own, it()))
    post = pick(k.post, 'remainder')() if free >= n - 2 else []
    return blocks, post, free


def flat(blocks, post):
    out = []
    for kept, own, it in blocks:
        out += kept + own + it
    return out + post


def nonblank(ls):
    return [x for x in ls if not (isinstance(x, str) and x == '')]


def only_nonblank(ls):
    out = []
    for x in ls:
        if isinstance(x, str):
            if x:
                out.append(x)
        elif is_str(x):
            out.append(x)
        else:
            raise Imprecise('line')
    return out


def delete(ci):
    def f(I):
        identity_expand(I)
        k = containers()[ci]
        blocks, post, j = build(k)
        ls = flat(blocks, post)
        n = len(blocks)
        how = pick(['index', 'negative index', 'slice', 'negative slice'] + (['name'] if k.names and k.names[j] else []), 'deletion')
        c = no_raise(I, 'raises', 'parsing', lambda: k.parse(I, ls), show_lines(ls))
        if len(items(I, c)) != n:
            raise Infeasible('parsed differently')

        def do():
            if how == 'name':
                I.call(I.builtins['delattr'], [c, k.names[j]])
                return
            idx = {'index': j, 'negative index': j - n, 'slice': VSliceOf(I, j, j + 1), 'negative slice': VSliceOf(I, j - n, j - n + 1 or None)}[how]
            I.call(I.getattr(c, '__delitem__'), [idx])
        no_raise(I, 'raises', 'deleting an item of %s by %s' % (k.name, how), do, show_lines(ls))
        want = []
        for i, (kept, own, it) in enumerate(blocks):
            want += kept
            if i != j:
                want += own + it
            elif not k.attached:
                want += own
        want += post
        same_lines(only_nonblank(k.raw(I, c)), nonblank(want), 'delete-collateral', 'deleting one item of %s by %s changes other lines' % (k.name, how))
    return f


def VSliceOf(I, a, b, c=None):
    return I.call(I.builtins['slice'], [a, b, c])


SLICES = [(None, None, -1), (2, 0, -1), (None, None, 2), (0, 2, None), (1, None, None), (None, None, -2), (5, None, None), (-2, None, None), (1, 1, None), (None, None, None), (-1, -3, -1)]


def delete_slice(ci):
    """several items at once"""
    def f(I):
        identity_expand(I)
        k = containers()[ci]
        fillers = [[], [cat('%foo ', h())] if len(k.pre) > 6 else [''], ['', cat('%fox ', h())] if len(k.pre) > 6 else []]
        blocks = [(list(fillers[(i + 1) % 3]), [cat('# c', h())] if i == 1 else [], it()) for i, it in enumerate(k.items)]
        post = pick(k.post, 'remainder')()
        ls = flat(blocks, post)
        c = no_raise(I, 'raises', 'parsing', lambda: k.parse(I, ls), show_lines(ls))
        if len(items(I, c)) != 3:
            raise Infeasible('parsed differently')
        sl = pick(SLICES, 'slice')
        gone = range(3)[slice(*sl)]
        no_raise(I, 'raises', 'deleting items of %s by slice %r' % (k.name, sl), lambda: I.call(I.getattr(c, '__delitem__'), [VSliceOf(I, *sl)]), show_lines(ls))
        want = []
        for i, (kept, own, it) in enumerate(blocks):
            want += kept + (own if i not in gone or not k.attached else []) + (it if i not in gone else [])
        same_lines(only_nonblank(k.raw(I, c)), nonblank(want + post), 'delete-collateral', 'deleting the items %r of %s changes other lines' % (sl, k.name))
    return f


def insert(ci):
    def f(I):
        identity_expand(I)
        k = containers()[ci]
        blocks, post, j = build(k)
        ls = flat(blocks, post)
        n = len(blocks)
        c = no_raise(I, 'raises', 'parsing', lambda: k.parse(I, ls), show_lines(ls))
        if len(items(I, c)) != n:
            raise Infeasible('parsed differently')
        item, new = k.newitem(I)
        where = pick(['insert', 'append', 'insert past the end', 'insert first'], 'insertion')
        pos = {'insert': min(j + 1, n), 'append': n, 'insert past the end': n, 'insert first': 0}[where]

        def do():
            if where == 'append':
                I.call(I.getattr(c, 'append'), [item])
            else:
                I.call(I.getattr(c, 'insert'), [n + 3 if where == 'insert past the end' else pos, item])
        no_raise(I, 'raises', 'adding an item to %s' % k.name, do, show_lines(ls))
        out = list(k.raw(I, c))
        at = [i for i in range(len(out) - len(new) + 1) if all(tri(a, b) is True for a, b in zip(out[i:], new))]
        if not at:
            raise Violation('insert-missing', 'an item added to %s is not written' % k.name, None, show_lines(ls))
        rest = out[:at[0]] + out[at[0] + len(new):]
        same_lines(rest, ls, 'insert-collateral', 'adding one item to %s changes other lines' % k.name)
        # between its neighbours
        lo = len(flat(blocks[:pos], []))
        hi = len(flat(blocks[:pos], [])) + len(blocks[pos][0]) + len(blocks[pos][1]) if pos < n else len(ls)
        if not lo <= at[0] <= hi:
            raise Violation('insert-place', 'an item added to %s is not written between its neighbours' % k.name, None, show_lines(ls))
    return f


# ------------------------------------------------------- sections, changelog
def sections_del(I):
    identity_expand(I)
    text = [[cat('Name: ', h()), ''], ['%description', cat('d', h()), ''], ['%package x', cat('Summary: ', h())], ['%changelog', cat('- ', h())]]
    j = cur().pick(3, 'section') + 1
    ls = [x for t in text for x in t]
    s = I.call(get(I, 'sections.Sections.parse'), [VList(list(ls))])
    how = pick(['index', 'negative index', 'name', 'upper-case name'], 'deletion')
    nm = ['package', 'description', 'package x', 'changelog'][j]
    def do():
        if how.endswith('name'):
            I.call(I.builtins['delattr'], [s, ' '.join([nm.split(' ')[0].upper()] + nm.split(' ')[1:]) if how[0] == 'u' else nm])
        else:
            I.call(I.getattr(s, '__delitem__'), [j if how == 'index' else j - 4])
    no_raise(I, 'raises', 'deleting a section by %s' % how, do, show_lines(ls))
    same_lines(items(I, I.call(I.getattr(s, 'get_raw_data'), [])), [x for i, t in enumerate(text) if i != j for x in t], 'delete-collateral', 'deleting a section by %s changes other sections' % how)


def sections_add(I):
    identity_expand(I)
    text = [[cat('Name: ', h()), ''], ['%description', cat('d', h()), ''], ['%package x', cat('Summary: ', h())], ['%changelog', cat('- ', h())]]
    ls = [x for t in text for x in t]
    s = I.call(get(I, 'sections.Sections.parse'), [VList(list(ls))])
    j = 1 + cur().pick(4, 'position')
    m = h('m')
    new = I.call(get(I, 'sections.Section'), ['files'], {'data': VList([cat('/', m)])})
    if j == 4 and cur().pick(2, 'append'):
        I.call(I.getattr(s, 'append'), [new])
    else:
        I.call(I.getattr(s, 'insert'), [j, new])
    text.insert(j, ['%files', cat('/', m)])
    same_lines(items(I, I.call(I.getattr(s, 'get_raw_data'), [])), [x for t in text for x in t], 'insert-collateral', 'adding a section changes other sections')


def options_edit(I):
    """%prep macro edited through its options: other lines stay"""
    pre, post = pick(PRE, 'before')(), pick(POST, 'after')()
    ls = pre[0] + pre[1] + ['%setup -q -n x'] + post
    p = I.call(get(I, 'prep.Prep.parse'), [sect(I, 'prep', ls)])
    m = h('m')
    I.setattr(I.getattr(I.getattr(p, 'setup'), 'options'), 'n', m)
    same_lines(raw(I, p), pre[0] + pre[1] + [cat('%setup -q -n ', m)] + post, 'edit-collateral', 'changing an option of a %prep macro changes something else')


def patch_macros(I):
    """adding and removing %patch macros by number"""
    nums = pick([(0, 1), (1, 2), (0, 10), (3,)], 'numbers')
    style = pick(['%%patch%d -p1', '%%patch -P %d -p1', '%%patch -P%d', '%%patch %d'], 'style')
    pre = pick(PRE[:8], 'before')()
    ls = ['%setup -q'] + pre[0] + pre[1]
    for n in nums:
        ls.append(style % n)
        ls.append(cat('echo ', h()))
    p = no_raise(I, 'raises', 'parsing', lambda: I.call(get(I, 'prep.Prep.parse'), [sect(I, 'prep', ls)]), show_lines(ls))
    if cur().pick(2, 'add or remove'):
        n = pick([0, 1, 2, 5, 11], 'new number')
        old = cur().pick(2, 'old style')
        no_raise(I, 'raises', 'Prep.add_patch_macro()', lambda: I.call(I.getattr(p, 'add_patch_macro'), [n], {'old_style_number': bool(old), 'p': 1}), show_lines(ls))
        new = '%%patch%d -p1' % n if old else '%%patch %d -p1' % n
        alt = '%%patch%d -p 1' % n if old else '%%patch %d -p 1' % n
        alt2 = '%%patch -p1 %d' % n
        out = list(raw(I, p))
        at = [i for i, x in enumerate(out) if isinstance(x, str) and x in (new, alt, alt2)]
        extra = len(out) - len(ls)
        if extra != 1:
            raise Violation('patch-add', 'specfile/prep.py: add_patch_macro() adds %d lines' % extra, None, lambda env: repr((conc_lines(ls, env), conc_lines(out, env))))
        for i in at:
            if all(tri(a, b) is True for a, b in zip(out[:i] + out[i + 1:], ls)):
                break
        else:
            raise Violation('patch-add', 'specfile/prep.py: add_patch_macro() changes other lines', None, lambda env: repr((conc_lines(ls, env), conc_lines(out, env))))
        if n not in nums:
            # ordered by number
            seq = [None if not (isinstance(x, str) and x.startswith('%patch')) else x for x in out]
            got = []
            for x in out:
                if isinstance(x, str) and x.startswith('%patch'):
                    d = ''.join(ch for ch in x.replace('-p1', '').replace('-p 1', '') if ch.isdigit())
                    got.append(int(d))
            if got != sorted(got):
                raise Violation('patch-order', 'specfile/prep.py: add_patch_macro() does not keep the macros ordered by number', None, lambda env: repr((conc_lines(ls, env), conc_lines(out, env))))
    else:
        n = pick(list(nums) + [7], 'number')
        no_raise(I, 'raises', 'Prep.remove_patch_macro()', lambda: I.call(I.getattr(p, 'remove_patch_macro'), [n]), show_lines(ls))
        want = list(ls)
        if n in nums:
            want.remove(style % n)
        same_lines(raw(I, p), want, 'patch-remove', 'specfile/prep.py: remove_patch_macro(%d) removes something else' % n)


def changelog_del(I):
    es = [['* Mon Jan 01 2024 a b <c> - 1', cat('- ', h()), ''], ['* Sun Dec 31 2023 ' + 'x', cat('- ', h()), cat('  ', h()), ''], ['* Sat Dec 30 2023 z - 0', cat('- ', h())]]
    pre = pick([[], [cat('# ', h()), '']], 'predecessor')
    more = cur().pick(2, 'more blank lines')
    if more:
        es[0] += ['', '']
        es[1] += ['']
    ls = pre + [x for e in es for x in e]
    c = I.call(get(I, 'changelog.Changelog.parse'), [sect(I, 'changelog', ls)])
    n = len(items(I, c))
    if n != 3:
        raise Infeasible('parsed differently')
    j = cur().pick(3, 'entry')     # oldest first
    how = pick(['index', 'negative', 'slice', 'any slice'], 'deletion')
    if how == 'any slice':
        sl = pick(SLICES, 'slice')
        I.call(I.getattr(c, '__delitem__'), [VSliceOf(I, *sl)])
        es = es[::-1]
        del es[slice(*sl)]
        es = es[::-1]
        more = True
    else:
        I.call(I.getattr(c, '__delitem__'), [j if how == 'index' else j - 3 if how == 'negative' else VSliceOf(I, j, j + 1)])
        es.pop(2 - j)
    out = raw(I, c)
    want = pre + [x for e in es for x in e]
    if more:
        out, want = only_nonblank(out), nonblank(want)
    same_lines(out, want, 'delete-collateral', 'deleting a changelog entry changes other entries')


def OBLIGATIONS(tier):
    out = []
    for i, k in enumerate(containers()):
        out.append(Obligation('delete: ' + k.name, delete(i), split=(2, 2), quick=(6000, 60)))
        out.append(Obligation('delete a slice: ' + k.name, delete_slice(i)))
        out.append(Obligation('insert: ' + k.name, insert(i), split=(2, 2), quick=(6000, 60)))
    return out + [Obligation('delete a section', sections_del), Obligation('add a section', sections_add), Obligation('edit an option', options_edit), Obligation('patch macros', patch_macros, split=(4, 4), quick=(6000, 60)),
                  Obligation('delete a changelog entry', changelog_del)]
