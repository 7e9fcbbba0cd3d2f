#!/usr/bin/env python3
"""Validate planted bugs and keep them in seeded/.

plant.py FILE.py [ID...]  FILE defines BUGS = [dict(id, property, edits=[(file, old, new)], demo=python source, needs, breaks)].
plant.py --sweep [ID...]  run the check of each kept bug against a patched copy."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, 'seeded')
BASE = json.load(open('/opt/vp/BASELINE.json'))
BL = set(BASE if isinstance(BASE, list) else (BASE.get('stable') or BASE.get('passed') or BASE.get('tests')))
SH = '''#!/bin/bash
# run with cwd = the repository
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=600):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def copy():
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    sh(['cp', '-a', '/repo/.', d])
    return d


def tests(d):
    w = tempfile.mkdtemp(prefix='mt', dir='/tmp')
    sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--basetemp=%s/t' % w, '--timeout=300', '-o', 'junit_family=xunit2',
        '--junitxml=%s/j.xml' % w, 'tests/unit', 'tests/integration'], cwd=d, env={'PYTHONPATH': d, 'TZ': 'UTC', 'LANG': 'C.UTF-8', 'PYTHONHASHSEED': '0', 'PYTHONPYCACHEPREFIX': w + '/pc'})
    sh(['/usr/bin/python3', '/opt/vp/results.py', w + '/o.json', 'junit:%s/j.xml' % w])
    o = json.load(open(w + '/o.json'))
    p = o['passed'] if 'passed' in o else [k for k, v in o.items() if v in ('passed', True, 'pass')]
    shutil.rmtree(w)
    return sorted(BL - set(p))


def check(d, pid, jobs=None):
    r = sh(['python3', os.path.join(V, 'run.py'), pid] + (['--jobs', str(jobs)] if jobs else []), cwd=V, env={'VERIF_REPO': d, 'VERIF_EVID': tempfile.mkdtemp(prefix='ev', dir='/tmp')}, timeout=1500)
    hit = r.returncode == 1 and 'VIOLATION property=%s ' % pid in r.stdout
    keys = re.findall(r'^  ([\w-]+): ', r.stdout, re.M)
    return hit, keys, r


def plant(b):
    d = copy()
    try:
        for f, old, new in b['edits']:
            p = os.path.join(d, 'specfile', f)
            s = open(p).read()
            if s.count(old) != 1:
                return b['id'], 'edit matches %d times in %s: %r' % (s.count(old), f, old[:60])
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], cwd=d).stdout
        out = os.path.join(SEEDED, b['id'])
        tmp = tempfile.mkdtemp(prefix='dm', dir='/tmp')
        open(tmp + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(tmp + '/demo.sh', 'w').write(SH)
        good = sh(['bash', tmp + '/demo.sh'], cwd='/repo', timeout=120)
        bad = sh(['bash', tmp + '/demo.sh'], cwd=d, timeout=120)
        msg = []
        if good.returncode != 0:
            msg.append('demo FAILS on the unchanged tree:\n' + good.stdout[-600:])
        if bad.returncode == 0:
            msg.append('demo passes with the bug')
        orig = False
        blame = {}
        for m in re.finditer(r'^--- a/(\S+)\n\+\+\+ .*\n((?:@@.*\n|[ +\-\\].*\n|\n)*)', diff, re.M):
            f = m.group(1)
            bl = sh(['git', 'blame', '-s', f], cwd='/repo').stdout.split('\n')
            n = 0
            for line in m.group(2).split('\n'):
                h = re.match(r'@@ -(\d+)', line)
                if h:
                    n = int(h.group(1))
                    continue
                if line.startswith('-'):
                    if bl[n - 1].startswith('^') or 'fe42d79' in bl[n - 1].split(' ')[0]:
                        orig = True
                    n += 1
                elif line.startswith(' '):
                    n += 1
                elif line.startswith('+') and not line.strip('+ '):
                    pass
        if not orig:
            msg.append('changes no line of the original repository')
        miss = tests(d)
        if miss:
            msg.append('%d stable tests fail: %s' % (len(miss), miss[:3]))
        if not msg:
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            shutil.copy(tmp + '/demo.py', out)
            shutil.copy(tmp + '/demo.sh', out)
            open(out + '/patch.diff', 'w').write(diff)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        shutil.rmtree(tmp)
        try:
            hit, keys, r = check(d, b['property'], 3)
            res = ('caught ' + ','.join(keys)) if hit else 'MISSED rc=%d %s' % (r.returncode, r.stdout[-400:] if r.returncode else '')
        except Exception as e:
            res = 'check failed: %r' % (e,)
        return b['id'], ('INVALID ' + '; '.join(msg) + ' ' if msg else 'valid, ') + res
    finally:
        shutil.rmtree(d)


def sweep_one(i):
    d = copy()
    try:
        m = json.load(open(os.path.join(SEEDED, i, 'meta.json')))
        r = sh(['git', 'apply', os.path.join(SEEDED, i, 'patch.diff')], cwd=d)
        if r.returncode:
            return i, 'patch does not apply'
        hit, keys, r = check(d, m['property'], 3)
        return i, m['property'] + (' caught ' + ','.join(keys) if hit else ' MISSED rc=%d' % r.returncode)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    if sys.argv[1] == '--sweep':
        ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
        cf = os.path.join(V, 'tools', 'caught.json')
        res = json.load(open(cf)) if os.path.exists(cf) else {}
        with ThreadPoolExecutor(3) as ex:
            for i, r in ex.map(sweep_one, ids):
                print('%-40s %s' % (i, r), flush=True)
                res[i] = r.replace(' caught ', ': ')
        json.dump({k: res[k] for k in sorted(res) if os.path.exists(os.path.join(SEEDED, k))}, open(cf, 'w'), indent=1)
    else:
        bugs = runpy.run_path(sys.argv[1])['BUGS']
        want = sys.argv[2:]
        with ThreadPoolExecutor(3) as ex:
            for i, r in ex.map(plant, [b for b in bugs if not want or b['id'] in want]):
                print('%-40s %s' % (i, r), flush=True)
