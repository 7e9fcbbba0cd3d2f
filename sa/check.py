"""Registration of analysis obligations, parallel execution, reporting."""
import itertools
import json
import multiprocessing
import os
import sys
import time

from . import drive, dom, interp
from .drive import Violation, explore, fresh_interp, in_big_stack
from .interp import *
from .dom import cur

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class AnchorError(Exception):
    pass


class Obligation:
    """One abstract-interpretation obligation.

    fn(I) interprets the repository's functions on an abstract initial state
    and raises Violation when the rule is definitely broken."""

    def __init__(self, name, fn, split=0, quick=(1500, 25), thorough=(40000, 400), modules=None, stubs=None,
                 overrides=None, hooks=None, confirm=True, max_steps=200000, tiers=('quick', 'thorough'), setup=None, max_viol=3):
        self.name, self.fn, self.split = name, fn, split
        self.budget = {'quick': quick, 'thorough': thorough}
        self.modules, self.stubs, self.overrides, self.hooks = modules, stubs, overrides, hooks
        self.confirm = confirm
        self.max_steps = max_steps
        self.tiers = tiers
        self.setup = setup
        self.max_viol = max_viol


class Finding:
    """A violation found by a syntactic / call-graph rule."""

    def __init__(self, key, msg, where=''):
        self.key, self.msg, self.where = key, msg, where


def get(I, dotted):
    """repository object by dotted name below the package, e.g. tags.Tags.parse"""
    parts = dotted.split('.')
    m = I.modules.get('specfile.' + parts[0])
    if m is None:
        raise AnchorError('module specfile.%s is gone' % parts[0])
    if len(parts) == 1:
        return m
    if parts[1] not in m.attrs:
        raise AnchorError('specfile.%s.%s is gone' % (parts[0], parts[1]))
    v = m.attrs[parts[1]]
    for p in parts[2:]:
        try:
            v = I.getattr(v, p)
        except AbsRaise:
            raise AnchorError('specfile.%s is gone' % dotted)
    return v


def run_one(args):
    ob, root, tier, seed = args

    def body():
        t0 = time.time()
        kw = {}
        if ob.modules:
            kw['modules'] = ob.modules
        try:
            I = fresh_interp(stubs=ob.stubs, overrides=ob.overrides, hooks=ob.hooks, **kw)
        except (dom.Imprecise, AbsRaise) as e:
            return {'name': ob.name, 'load_failed': 'cannot model module level: %r' % (e,), 'wall': time.time() - t0}
        if ob.setup:
            r = ob.setup(I)
            if r:
                return {'name': ob.name, 'skipped': r, 'wall': time.time() - t0}
        paths, secs = ob.budget[tier]
        if root:
            n = 1
            for d in ob.split if isinstance(ob.split, tuple) else (ob.split,):
                n *= d
            paths = max(50, paths // n)
        r = explore(I, ob.name, ob.fn, max_paths=paths, max_time=secs, seed=seed, max_steps=ob.max_steps, root=root, confirm=ob.confirm, max_viol=ob.max_viol)
        return r.pack()
    try:
        return in_big_stack(body)
    except AnchorError as e:
        return {'name': ob.name, 'anchor': str(e)}
    except Exception as e:      # analysis failure: undecided, never an alarm
        import traceback
        return {'name': ob.name, 'error': traceback.format_exc()[-1500:]}


def load_known(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, desc = rest.partition(' :: ')
                out[key.strip()] = desc.strip()
    return out


def run_check(pid, mod, tier, seed, only=None, jobs=None, verbose=False):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    obs = [o for o in getattr(mod, 'OBLIGATIONS', lambda tier: [])(tier) if tier in o.tiers]
    if only:
        obs = [o for o in obs if only in o.name]
    tasks = []
    for o in obs:
        if o.split:
            dims = o.split if isinstance(o.split, tuple) else (o.split,)
            tasks += [(o, root, tier, seed) for root in itertools.product(*[range(n) for n in dims])]
        else:
            tasks.append((o, (), tier, seed))
    results = []
    if tasks:
        n = min(jobs or os.cpu_count() or 4, len(tasks))
        # longest budgets first
        order = sorted(range(len(tasks)), key=lambda i: -tasks[i][0].budget[tier][1])
        if n == 1:
            results = [run_one(tasks[i]) for i in order]
        else:
            global _TASKS
            _TASKS = tasks
            with multiprocessing.get_context('fork').Pool(n, maxtasksperchild=8) as pool:
                for r in pool.imap_unordered(_run_idx, order, chunksize=1):
                    results.append(r)
                    if r.get('violations') and os.environ.get('VERIF_FAILFAST'):
                        break
    static = {}
    findings = []
    errors = []
    if not only or only == 'static':
        for rule in getattr(mod, 'RULES', []):
            try:
                info, fs = rule()
            except AnchorError as e:
                errors.append('%s: %s' % (rule.__name__, e))
                continue
            static[rule.__name__] = info
            findings += fs
    agg = {}
    called = set()
    viol = {}
    for r in results:
        if 'anchor' in r:
            errors.append('%s: %s' % (r['name'], r['anchor']))
            continue
        a = agg.setdefault(r['name'], {'paths': 0, 'decided': 0, 'infeasible': 0, 'bounded': 0, 'undecided': 0, 'unconfirmed': 0,
                                       'exhausted': True, 'reasons_undecided': {}, 'wall_s': 0})
        for k in ('load_failed', 'skipped', 'error'):
            if k in r:
                a[k] = r[k]
                a['exhausted'] = False
        if 'paths' not in r:
            continue
        for k in ('paths', 'decided', 'infeasible', 'bounded', 'undecided', 'unconfirmed'):
            a[k] += r[k]
        a['exhausted'] = a['exhausted'] and r['exhausted']
        a['wall_s'] = round(a['wall_s'] + r['wall'], 2)
        for k, v in r['why'].items():
            a['reasons_undecided'][k[:160]] = a['reasons_undecided'].get(k[:160], 0) + v
        if 'sample' not in a and r['samples']:
            a['sample'] = r['samples'][0]
        called |= set(r['called'])
        for k, v in r['violations'].items():
            viol.setdefault(k, dict(v, obligation=r['name']))
    for f in findings:
        viol.setdefault(f.key, {'msg': f.msg, 'example': f.where, 'path': []})
    for a in agg.values():
        a['reasons_undecided'] = dict(sorted(a['reasons_undecided'].items(), key=lambda x: -x[1])[:6])
    known = load_known(pid)
    new = {k: v for k, v in viol.items() if k not in known}
    total = {k: sum(a[k] for a in agg.values()) for k in ('paths', 'decided', 'infeasible', 'bounded', 'undecided', 'unconfirmed')}
    cov = {'explanation': mod.EXPLANATION, 'rule': getattr(mod, 'RULE', ''),
           'obligations_analysed': len(agg), 'abstract_paths': total['paths'], 'paths_decided': total['decided'],
           'paths_infeasible': total['infeasible'], 'paths_cut_by_a_bound': total['bounded'], 'paths_undecided': total['undecided'],
           'reports_without_witness': total['unconfirmed'],
           'obligations_exhausted': sum(1 for a in agg.values() if a['exhausted']),
           'functions_analysed': sorted(x for x in called if x.startswith('specfile.')),
           'syntactic_rules': static, 'per_obligation': agg}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])), 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    if not only:
        with open(os.path.join(EVID, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
    print('%s [%s] %d obligations, %d abstract paths (%d decided, %d infeasible, %d bounded, %d undecided, %d unconfirmed), %d functions, %.1f s'
          % (pid, tier, len(agg), total['paths'], total['decided'], total['infeasible'], total['bounded'], total['undecided'], total['unconfirmed'], len(cov['functions_analysed']), time.time() - t0))
    for n, i in static.items():
        print('  rule %s: %s' % (n, json.dumps(i, default=str)[:300]))
    if verbose:
        for n, a in sorted(agg.items()):
            print('  %-44s p=%d ok=%d inf=%d bnd=%d und=%d unc=%d exh=%s %.1fs %s' % (n, a['paths'], a['decided'], a['infeasible'], a['bounded'], a['undecided'], a['unconfirmed'], a['exhausted'], a['wall_s'],
                  a.get('error') or a.get('load_failed') or a.get('skipped') or ''))
            for k, v in a['reasons_undecided'].items():
                print('        %5d %s' % (v, k))
    for k in viol:
        if k in known:
            print('KNOWN-FINDING: property=%s %s %s' % (pid, k, known[k]))
    code = 0
    for i, (k, v) in enumerate(sorted(new.items())):
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, '%s-%d.txt' % (pid, i))
        with open(fn, 'w') as f:
            f.write('property %s\nrule: %s\nobligation: %s\n%s\nwitness: %s\npath through the source (branch outcomes):\n' % (pid, k, v.get('obligation', '(syntactic rule)'), v['msg'], v['example']))
            for p in v['path']:
                f.write('  %s\n' % (p,))
            f.write('reproduce: python3 /verif/run.py %s --tier %s\n' % (pid, tier))
        print('  %s: %s\n    %s' % (k, v['msg'], str(v['example'])[:600]))
        for p in v['path'][-6:]:
            print('      at %s' % (p,))
        print('VIOLATION property=%s replay=%s' % (pid, fn))
        code = 1
    if errors and not code:
        for e in errors:
            print('ANALYSIS-BROKEN: %s' % e, file=sys.stderr)
        code = 2
    bad = [n for n, a in agg.items() if a.get('error') or a.get('load_failed')]
    for n in bad:
        print('  note: obligation %s could not be analysed: %s' % (n, agg[n].get('error') or agg[n].get('load_failed')))
    return code


def _run_idx(i):
    return run_one(_TASKS[i])
