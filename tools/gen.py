#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from one table (props.py).
A property is claimed when sa/checks/<id>.py exists."""
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NA, ENGINE, MUT, QUIET  # noqa: E402


def const(pid, name):
    t = ast.parse(open(os.path.join(V, 'sa', 'checks', pid.lower() + '.py')).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == name:
            return ast.literal_eval(n.value)
    return ''


def design():
    s = open(os.path.join(HERE, 'DESIGN.tmpl')).read()
    table = []
    for p in PROPS:
        if p['id'] in NA or not os.path.exists(os.path.join(V, 'sa', 'checks', p['id'].lower() + '.py')):
            continue
        a = const(p['id'], 'ASSUMPTIONS')
        table += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '', '* Decided by: ' + const(p['id'], 'EXPLANATION'), '* Rule: `%s`' % const(p['id'], 'RULE').replace('`', "'"),
                  '* Bounds and assumptions: %s. %s' % ('; '.join(a), p['note'].replace(ENGINE, '')), '* Why tests cannot settle it: ' + p['why_tests_cant'], '']
    na = ['* **%s %s** - %s' % (p['id'], p['title'], NA[p['id']]) for p in PROPS if p['id'] in NA]
    caught = json.load(open(os.path.join(HERE, 'caught.json')))
    bugs = ['| bug | needs | caught by |', '|---|---|---|']
    for i in sorted(caught):
        m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
        bugs.append('| %s | %s | %s |' % (i, m['needs'].replace('|', '/'), caught[i]))
    for k, v in (('TABLE', table), ('NA', na), ('BUGS', bugs), ('MUT', [MUT]), ('QUIET', [QUIET])):
        s = s.replace('@@%s@@' % k, '\n'.join(v))
    open(os.path.join(V, 'DESIGN.md'), 'w').write(s)


def main():
    lines, checks, na = [], [], []
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        rec = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        if p['id'] in NA:
            lines.append(json.dumps(rec))
            na.append({'property': p['id'], 'reason': NA[p['id']]})
            continue
        if not os.path.exists(os.path.join(V, 'sa', 'checks', p['id'].lower() + '.py')):
            continue
        lines.append(json.dumps(rec))
        checks.append({'property': p['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3 run.py %s --tier thorough' % p['id'],
                       'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
    open(os.path.join(V, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; assert sys.version_info >= (3, 9)"', 'checks': checks, 'not_applicable': na,
         'notes': 'Static analysis only: the repository is parsed, never imported or executed. Everything is plain Python 3 under sa/.'}
    design()
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')


main()
