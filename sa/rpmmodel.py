"""A model of librpm's process-wide macro context, the oracle of C06 and C07.

The table maps a name to a stack of (level, body).  rpm.reloadConfig() gives
the configured macros back but may leave macros above the configuration level
behind; parsing a spec file defines `specdef` as a token of its content."""
from . import dom
from .dom import Imprecise, is_str
from .interp import AbsRaise, ABytes

BASE = {'_bindir': (-13, '/usr/bin'), 'builtin': (-20, 'b'), 'dflt': (-15, 'd'), 'rc': (-11, 'r')}
LEFT = {'left_cmdline': (-7, 'x'), 'left_tarball': (-5, 'x'), 'left_spec': (-3, 'x'), 'left_old': (-1, 'x'), 'left_global': (0, 'x'), 'left_empty': (-3, ''), 'dist': (-1, '.left'), '_topdir': (-1, '/left'), 'name': (-3, 'left'), '_sourcedir': (-1, '/left')}


class RpmModel:
    def __init__(self, leftovers=True, stacked=()):
        self.tab = {}
        self.leftovers = leftovers
        self.contents = []          # content of the n-th rpm.spec()
        self.snap = []              # table at the n-th rpm.spec()
        self.dirty = False
        self.stacked = dict(stacked)
        self.fill()

    def fill(self):
        for k, v in BASE.items():
            self.tab[k] = [v]
        if self.leftovers:
            for k, v in LEFT.items():
                self.tab[k] = [v]
        for k, v in self.stacked.items():
            self.tab[k] = list(v)

    def reload(self, I):
        # whatever was defined above the configuration level may survive
        keep = {k: v for k, v in self.tab.items() if v and v[-1][0] > -11}
        self.tab = keep
        self.fill()
        self.dirty = False

    def name(self, n):
        if not isinstance(n, str):
            raise Imprecise('abstract macro name')
        return n

    def add(self, I, n, body):
        self.tab.setdefault(self.name(n), []).append((-1, body))

    def delete(self, I, n):
        st = self.tab.get(self.name(n))
        if st:
            st.pop()
            if not st:
                del self.tab[n]

    def spec(self, I, o, content):
        self.contents.append(content.s if isinstance(content, ABytes) else content)
        self.snap.append({k: v[-1][1] for k, v in self.tab.items() if v})
        o.attrs['_nr'] = len(self.contents) - 1
        self.tab['specdef'] = [(-3, 'c%d' % (len(self.contents) - 1))]

    def expand(self, I, s):
        if not isinstance(s, str):
            return s
        if s == '%dump':
            self.dirty = True
            return ''
        if s.startswith('%{') and s.endswith('}') and s.count('%') == 1:
            n = s[2:-1]
            st = self.tab.get(n)
            if st:
                return st[-1][1]
        return s

    def stderr(self, I):
        if not self.dirty:
            return []
        self.dirty = False
        out = []
        for k, v in sorted(self.tab.items()):
            if not v:
                continue
            lv, b = v[-1]
            if not isinstance(b, str):
                raise Imprecise('abstract macro body in a dump')
            out.append(('%3d: %s%s\n' % (lv, k, '\t' + b if b else '')).encode())
        out.append(b'======================== active 0 empty 0\n')
        return out
