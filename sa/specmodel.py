"""An independent model of how RPM reads a preamble: macro definitions, tags and
simple conditions, and the expansion of expressions.  Oracle of C18.

Holes of abstract strings are carried through as private characters."""
import re

from . import dom
from .interp import ABytes
from .rpmmodel import BASE, RpmModel

NAME = re.compile(r'[A-Za-z_]\w*')


class Coder:
    def __init__(self):
        self.vars = []

    def enc(self, s):
        out = []
        for p in dom.norm(s):
            if isinstance(p, str):
                out.append(p)
            else:
                for i, v in enumerate(self.vars):
                    if v is p:
                        break
                else:
                    i = len(self.vars)
                    self.vars.append(p)
                out.append(chr(0xE000 + i))
        return ''.join(out)

    def dec(self, s):
        return dom.cat(*[self.vars[ord(c) - 0xE000] if 0xE000 <= ord(c) < 0xE000 + len(self.vars) else c for c in s]) if s else ''


def closing(s, i, o, c):
    d = 0
    for k in range(i, len(s)):
        if s[k] == o:
            d += 1
        elif s[k] == c:
            d -= 1
            if d == 0:
                return k
    return None


def expand(s, lookup, depth=0):
    if depth > 20:
        raise dom.Imprecise('recursive macro')
    out = []
    i = 0
    while i < len(s):
        if s[i] != '%' or i + 1 >= len(s):
            out.append(s[i])
            i += 1
            continue
        c = s[i + 1]
        if c == '%':
            out.append('%')
            i += 2
        elif c == '{':
            e = closing(s, i + 1, '{', '}')
            if e is None:
                raise dom.Imprecise('unterminated')
            out.append(braced(s[i + 2:e], s[i:e + 1], lookup, depth))
            i = e + 1
        elif c == '(':
            e = closing(s, i + 1, '(', ')')
            b = expand(s[i + 2:e], lookup, depth + 1)
            out.append(b[5:] if b.startswith('echo ') else '')
            i = e + 1
        elif c == '?' or c == '!' or c.isalpha() or c == '_':
            m = re.compile(r'[?!]*').match(s, i + 1)
            n = NAME.match(s, m.end())
            if not n:
                out.append(s[i])
                i += 1
                continue
            out.append(braced(s[i + 1:n.end()], s[i:n.end()], lookup, depth))
            i = n.end()
        else:
            out.append('%')
            i += 1
    return ''.join(out)


def braced(b, whole, lookup, depth):
    if b.startswith('expr:'):
        x = expand(b[5:], lookup, depth + 1)
        m = re.match(r'\s*(\d+)\s*(?:\+\s*(\d+))?\s*$', x)
        if not m:
            raise dom.Imprecise('expression')
        return str(int(m.group(1)) + int(m.group(2) or 0))
    m = re.match(r'([?!]*)([A-Za-z_]\w*)(:)?', b)
    if not m:
        raise dom.Imprecise('macro %s' % b)
    pre, name, colon = m.groups()
    rest = b[m.end():]
    body = lookup(name)
    neg = pre.count('!') % 2 == 1
    if '?' in pre:
        if colon:
            return expand(rest, lookup, depth + 1) if (body is not None) != neg else ''
        if body is None or neg:
            return ''
        return expand(body, lookup, depth + 1)
    if body is None:
        return whole
    if rest or colon:
        raise dom.Imprecise('macro with arguments')
    return expand(body, lookup, depth + 1)


def read(lines, base=()):
    """macro table after reading the preamble; list of (line, kind, name, value, valid)"""
    tab = dict(base)
    ents = []
    stack = []
    for i, l in enumerate(lines):
        valid = all(stack)
        t = l.strip()
        if t.startswith('%if '):
            x = expand(t[4:], tab.get)
            stack.append(x not in ('0', ''))
        elif t == '%else':
            stack[-1] = not stack[-1]
        elif t == '%endif':
            stack.pop()
        elif re.match(r'%(description|prep|build|changelog|package)\b', t):
            break
        else:
            m = re.match(r'(?:(%dnl\s*|#\s*)%?%?)?%(global|define)\s+(\w+)(\([^)]*\))?\s+(.*)$', t) or re.match(r'(%dnl\s*|#\s*)%?(global|define)\s+(\w+)(\([^)]*\))?\s+(.*)$', t)
            if m:
                off, kwd, name, opts, body = m.groups()
                ents.append((i, 'md', name + (opts or ''), body, valid, bool(off)))
                if valid and not off:
                    tab[name] = expand(body, tab.get) if kwd == 'global' else body
                continue
            m = re.match(r'(\w+)\s*:\s*(.*)$', t)
            if m and not t.startswith('#'):
                ents.append((i, 'tag', m.group(1).lower(), m.group(2), valid, False))
                if valid:
                    v = expand(m.group(2), tab.get)
                    tab[m.group(1).lower()] = v
                    tab[m.group(1).upper()] = v
    return tab, ents


class SpecModel(RpmModel):
    def __init__(self):
        self.c = Coder()
        super().__init__(leftovers=False)

    def spec(self, I, o, content):
        o.attrs['_nr'] = 0
        text = content.s if isinstance(content, ABytes) else content.decode()
        base = {k: v[-1][1] for k, v in self.tab.items() if v}
        tab, _ = read(self.c.enc(text).split('\n'), base)
        for k, v in tab.items():
            if base.get(k) != v:
                self.tab[k] = [(-3, v)]

    def add(self, I, n, body):
        self.tab.setdefault(self.name(n), []).append((-1, self.c.enc(body)))

    def expand(self, I, s):
        if isinstance(s, str) and s == '%dump':
            self.dirty = True
            return ''
        return self.c.dec(expand(self.c.enc(s), lambda n: self.tab[n][-1][1] if self.tab.get(n) else None))
