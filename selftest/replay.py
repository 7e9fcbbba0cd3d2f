#!/usr/bin/env python3
"""Every Nth decided path of every check is replayed with concrete characters
in place of the free ones; a scenario that judges the two differently could
not confirm a violation. Usage: replay.py [N] [CNN...]"""
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
n = sys.argv[1] if len(sys.argv) > 1 else '20'
ids = sys.argv[2:] or ['C%02d' % i for i in range(1, 29)]
bad = 0
for c in ids:
    r = subprocess.run([sys.executable, os.path.join(V, 'run.py'), c, '-v'], cwd=V, stdout=subprocess.PIPE, text=True,
                       env=dict(os.environ, VERIF_EVID=tempfile.mkdtemp(), VERIF_REPLAY_DECIDED=n))
    odd = [l.strip() for l in r.stdout.splitlines() if 'REPLAY' in l and 'no witness' not in l]
    bad += len(odd)
    print(c, 'ok' if not odd else odd)
sys.exit(1 if bad else 0)
