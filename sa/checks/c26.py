"""C26: comments behave as a list of texts."""
from ..scn import *

EXPLANATION = (
    'Abstract interpretation of every way to read and change the comments of a tag or of a source list entry, over zero to three comment lines with free '
    'text and indentation; the lines written back are compared with the original ones after the same operation on a plain list of (prefix, text).')
RULE = 'lines written back == original lines with the comment lines replaced by those of the list after the operation; read operations == those of the list of texts'
ASSUMPTIONS = ['up to three comments; slices are replaced by as many texts as they hold']


def h(n='h'):
    return fresh_str(n, LETTER, 1, 1)


PREFIX = ['# ', '#', '  #  ', '\t# ', '#\t']
BEFORE = [[], [''], ['%foo x'], ['# apart', '']]


def comments(I):
    identity_expand(I)
    where = pick(['tag', 'list entry'], 'owner')
    n = cur().pick(4, 'number of comments')
    before = pick(BEFORE if where == 'tag' else BEFORE[:2] + BEFORE[3:], 'lines before')
    rot = cur().pick(2, 'prefixes')
    L = [(PREFIX[(i * 3 + rot * 2) % 5], cat('c%d' % i, h())) for i in range(n)]
    sec = get(I, 'sections.Section')
    if where == 'tag':
        head, mid, tail = ['Name: n'] + before, 'Version: 1', ['# e', 'Epoch: 2', '# r']
    else:
        head, mid, tail = ['first'] + before, 'second', ['# e', 'third', '# r']
    lines = head + [cat(a, b) for a, b in L] + [mid] + tail
    sc = I.call(sec, ['package' if where == 'tag' else 'sourcelist'], {'data': VList(list(lines))})
    view = I.call(get(I, 'tags.Tags.parse' if where == 'tag' else 'sourcelist.Sourcelist.parse'), [sc])
    owner = I.getitem(view, 1)
    cs = I.getattr(owner, 'comments')
    show = show_lines(lines)
    new = cat('z', h('new'))
    C = get(I, 'tags.Comment')
    text = lambda c: I.getattr(c, 'text')
    call = lambda m, *a: no_raise(I, 'raises', 'comments: ' + m, lambda: I.call(I.getattr(cs, m), list(a)), show)
    slice_ = lambda *a: I.call(I.builtins['slice'], list(a))
    op = pick(['append', 'append comment', 'insert', 'insert comment', 'extend', 'extend comments', 'set', 'set comment', 'set slice', 'set slice comments', 'del', 'del slice', 'clear', 'pop',
               'set text', 'contains', 'index', 'raw', 'slice', 'iterate', 'replace', 'keep slice', 'keep copy'], 'operation')
    def raises(f):
        try:
            f()
        except AbsRaise as e:
            return exc_name(e) == 'ValueError'
        return False
    bad = lambda what: Violation('read-' + op, 'specfile/tags.py: %s' % what, None, show)
    if op == 'append':
        call('append', new)
        L.append(('# ', new))
    elif op == 'append comment':
        call('append', I.call(C, [new, '#']))
        L.append(('#', new))
    elif op in ('insert', 'insert comment'):
        i = pick(list(range(-n - 1, n + 2)), 'index')
        call('insert', i, new if op == 'insert' else I.call(C, [new]))
        L.insert(i, ('# ', new))
    elif op in ('extend', 'extend comments'):
        call('extend', VList([new, 'y'] if op == 'extend' else [I.call(C, [new]), I.call(C, ['y'])]))
        L += [('# ', new), ('# ', 'y')]
    elif op == 'clear':
        call('clear')
        L = []
    elif op == 'contains':
        for _, t in L:
            if not I.truth(call('__contains__', t)):
                raise bad('the text of a comment is not found')
        for x in items(I, cs):
            if not I.truth(call('__contains__', x)):
                raise bad('a comment is not found')
        if I.truth(call('__contains__', '0zz')):
            raise bad('a text that is not there is found')
    elif op == 'index':
        for i, (_, t) in enumerate(L):
            if call('index', t) != i:
                raise bad('position of a text')
            if call('index', I.getitem(cs, i)) != i:
                raise bad('position of a comment')
            if call('index', t, i) != i or call('index', I.getitem(cs, i), 0, i + 1) != i:
                raise bad('position of a comment from a start')
            if not raises(lambda: I.call(I.getattr(cs, 'index'), [t, i + 1])) or not raises(lambda: I.call(I.getattr(cs, 'index'), [t, 0, i])):
                raise bad('a text outside the given range has a position')
        try:
            I.call(I.getattr(cs, 'index'), ['0zz'])
        except AbsRaise as e:
            if exc_name(e) != 'ValueError':
                raise bad('a text that is not there raises %s' % exc_name(e))
        else:
            raise bad('a text that is not there has a position')
    elif op == 'raw':
        same_lines(items(I, I.getattr(cs, 'raw')), [t for _, t in L], 'read-raw', 'specfile/tags.py: texts of comments')
    elif op == 'iterate':
        same_lines([text(c) for c in items(I, cs)], [t for _, t in L], 'read-iterate', 'specfile/tags.py: iteration over comments')
        if I.call(I.builtins['len'], [cs]) != n:
            raise bad('number of comments')
    elif op == 'replace':
        I.setattr(owner, 'comments', I.call(get(I, 'tags.Comments'), [VList([I.call(C, [new])]), VList(list(before))]))
        L = [('# ', new)]
    elif op == 'keep copy':
        I.setattr(owner, 'comments', call('copy'))
    elif n == 0:
        raise Infeasible('empty')
    else:
        i = pick(list(range(-n, n)), 'index')
        if op == 'set':
            call('__setitem__', i, new)
            L[i] = (L[i][0], new)
        elif op == 'set text':
            I.setattr(I.getitem(cs, i), 'text', new)
            L[i] = (L[i][0], new)
        elif op == 'set comment':
            call('__setitem__', i, I.call(C, [new, '#  ']))
            L[i] = ('#  ', new)
        elif op in ('set slice', 'set slice comments'):
            st = pick([None, -1, 2], 'step')
            vs = [cat('v%d' % q, h()) for q in range(len(L[i::st]))]
            call('__setitem__', slice_(i, None, st), VList([v if op == 'set slice' else I.call(C, [v]) for v in vs]))
            for q, v in zip(range(n)[i::st], vs):
                L[q] = (L[q][0] if op == 'set slice' else '# ', v)
        elif op == 'del':
            call('__delitem__', i)
            del L[i]
        elif op == 'del slice':
            st = pick([None, -1, 2], 'step')
            call('__delitem__', slice_(i, None, st))
            del L[i::st]
        elif op == 'pop':
            same_text(text(call('pop', i)), L[i][1], 'read-pop', 'specfile/tags.py: comment taken')
            del L[i]
        elif op == 'keep slice':
            st = pick([None, -1, 2], 'step')
            I.setattr(owner, 'comments', call('__getitem__', slice_(i, None, st)))
            L = L[i::st]
        else:
            st = pick([None, -1, 2], 'step')
            got = I.getitem(cs, slice_(i, None, st))
            same_lines([text(c) for c in items(I, got)], [t for _, t in L[i::st]], 'read-slice', 'specfile/tags.py: slice of comments')
            same_text(text(I.getitem(cs, i)), L[i][1], 'read-slice', 'specfile/tags.py: comment by index')
    out = items(I, I.call(I.getattr(view, 'get_raw_section_data'), []))
    same_lines(out, head + [cat(a, b) for a, b in L] + [mid] + tail, 'write-' + op.replace(' ', '-'), 'specfile/tags.py: lines after comments %s' % op)


def OBLIGATIONS(tier):
    return [Obligation('comments', comments, split=(2, 4), quick=(12000, 40), thorough=(60000, 300))]
