"""Self-test of the regex transfer function: for sampled members of an abstract
string, the partition list must contain one whose recorded facts accept the
member and whose groups concretise to the groups of the real match."""
import sys, random, re
sys.dont_write_bytecode = True
import os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import dom, rx, drive
from sa.dom import *

PATS = [(r'([^\S\n]+)$', 0), (r'^([?!]*)', 0), (r'^(\s*#\s*)(.*)$', 0), (r'(\s+)', 0), (r'([^\S\n]+)\Z', 0), (r'(\d+)$', 0), (r'^(a|ab)(c|bcd)(d*)$', 0), (r'a*?b', 0), (r'(a|b)+c', 0),
        (r'(?i)^name(\s*:\s*)(.+)', 0), (r'^%build(\s+.*(?<!\\)$|$)', re.I), (r'x{1,2}(y?)', 0), (r'(?:a|(b))\1?c', 0), (r'\s*$', 0), ('(?:^|x)a', 0),
        (r'''^(\s*)(%dnl)?((?(2).*?%|(?:%|\#(?:.*?%)?)))(global|define)(\s+)(\w+(?:\(.*?\))?)(\s+)(.*?)(\s*|\\)$''', 0)]
LITS = ['a', 'b', '%', '%dnl', 'global', ' x ', '#', 'name', ':', '%build', '\\', '1', '']
CH = 'ab%# \t\\1x:!?('


def scenario_list(rnd):
    n = rnd.randint(1, 4)
    spec = []
    for _ in range(n):
        if rnd.random() < 0.4:
            spec.append(rnd.choice(LITS))
        else:
            k = rnd.choice([FULL, NOT_NL, cmask(' \t'), cmask('ab'), cmask('ab '), cmask('%a#'), NOT_NL & ~WS])
            lo = rnd.choice([0, 0, 1]); hi = rnd.choice([None, 1, 2, 2]); hi = hi if hi is None or hi >= lo else lo
            spec.append((k, lo, hi))
    return spec


def sample(spec, rnd):
    out = []
    for s in spec:
        if isinstance(s, str):
            out.append(s)
        else:
            cs = [c for c in CH if c in IDX and s[0] >> IDX[c] & 1] or chars_of(s[0])
            n = rnd.randint(s[1], min(s[2] if s[2] is not None else s[1] + 3, s[1] + 3))
            out.append(''.join(rnd.choice(cs) for _ in range(n)))
    return ''.join(out)


def main():
    rnd = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
    bad = tot = und = 0
    for it in range(int(sys.argv[2]) if len(sys.argv) > 2 else 1500):
        pat, fl = rnd.choice(PATS)
        R = rx.Rx.get(pat, fl)
        mode = rnd.choice(['match', 'search', 'search', 'fullmatch'])
        spec = scenario_list(rnd)
        text = sample(spec, rnd)
        real = getattr(R.re, mode)(text)
        queue = [[]]; found = False; bounded = False; n = 0
        while queue and n < 400 and not found:
            sc = queue.pop(); ctx = Ctx(sc); set_ctx(ctx); n += 1
            try:
                parts = [s if isinstance(s, str) else fresh_str('v', *s) for s in spec]
                s = cat(*parts)
                if isinstance(s, str):
                    found = True
                    break
                m = rx.do_match(R, s, mode)
                dom.unify(s, text)
                env = {'rnd': rnd, 'chars': '', 'bias': 1}
                ok = all(chk(env) for d, chk in ctx.facts) and dom.conc(s, env) == text
                if ok and (m is None) == (real is None):
                    found = True
                elif ok:
                    print('WRONG', pat, mode, spec, repr(text), m, real)
            except Bounded:
                bounded = True
            except Infeasible:
                pass
            except Imprecise:
                bounded = True
            for i in range(len(sc), len(ctx.arity)):
                for alt in range(ctx.arity[i]):
                    if alt != ctx.script[i]:
                        queue.append(ctx.script[:i] + [alt])
        tot += 1
        if not found:
            if bounded or n >= 400:
                und += 1
            else:
                bad += 1
                print('MISSING', repr(pat), mode, [s if isinstance(s, str) else (''.join(chars_of(s[0]))[:8], s[1], s[2]) for s in spec], repr(text), real)
    print('total', tot, 'missing', bad, 'bounded', und)
    return bad


drive.in_big_stack(lambda: sys.exit(1) if main() else None)
