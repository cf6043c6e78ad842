#!/usr/bin/env python3
"""mkdesign.py: write DESIGN.md (needs a dev build in /tmp/vmcdev)."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from oracles import ORACLE
NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
desc = json.loads(subprocess.check_output(['/tmp/vmcdev/mc', 'describe']))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
old = {}
try: old = json.load(open(V + '/tools/measured.json'))
except OSError: pass
def b(x): return '-' if not (x['Sched'] or x['Fault']) else f"{x['Sched']}/{x['Fault']}/{x['Total']}"
out = [open(V + '/tools/design_head.md').read()]
for p in sorted(props, key=lambda p: p['id']):
    i = p['id']
    out.append(f"### {i} {p['title']}\n\n{p['statement']}\n")
    out.append(f"*Decided by* {NOTE[i][0]}. *Oracle:* {ORACLE[i]}\n")
    try: ev = json.load(open(f'{V}/evidence/{i}.json'))
    except OSError: ev = None
    if ev and ev['tier'] == 'quick' and not ev['violations']:
        old[i] = {'wall': round(ev['wall_s']), 's': {s['scenario']: [s['executions'], s['completed'], s['exhaustive_within_bounds']] for s in ev['coverage']['scenarios']}}
    m = old.get(i, {'s': {}})
    out.append('| scenario | enumerated | quick | thorough | executions |\n|---|---|---|---|---|')
    for s in desc[i]:
        if s['Name'].endswith('-prio'): continue
        e = m['s'].get(s['Name'])
        pr = m['s'].get(s['Name'] + '-prio')
        n = f"{e[0]}{'' if e[2] else ' (bound not completed)'}" if e else ('thorough tier' if s['Thorough'] else 'not measured')
        if pr: n += f" + {pr[0]} prio{'' if pr[2] else ' (bound not completed)'}"
        q = 'thorough only' if s['Thorough'] else b(s['Quick'])
        f = (', race detector' if s['Race'] else '') + (', *prio*' if any(t['Name'] == s['Name'] + '-prio' for t in desc[i]) else '')
        out.append(f"| {s['Name']} | {s['Doc']}{f} | {q} | {b(s['Deep'])} | {n} |")
    if 'wall' in m: out.append(f"\nA quick run takes about {m['wall']} s on 8 idle cores.")
    out.append('')
json.dump(old, open(V + '/tools/measured.json', 'w'), indent=1, sort_keys=True)
k = json.load(open(V + '/known_findings.json'))
out.append('## 4. Defects found and repaired\n\nAll were shown on the real code by a check, and are repaired in /repo (one `fix:` commit each; `known_findings.json` has the same list). None is left unrepaired.\n')
out.append('| property | commit | what failed |\n|---|---|---|')
import re
for e in k['fixed']:
    m_ = re.match(r'fixed: property=(\S+) (\S+) (.*)', e)
    out.append(f"| {m_[1]} | {m_[2][:7]} | {m_[3]} |")
out.append('\n## 5. Planted bugs\n\nEach lies in `seeded/<id>` with a demonstration that uses no part of the machinery. "caught" names the scenario that reports it first.\n')
out.append('| bug | property | needs | caught by |\n|---|---|---|---|')
det = {}
try: det = json.load(open(V + '/tools/detected.json'))
except OSError: pass
for d in sorted(os.listdir(V + '/seeded')):
    j = json.load(open(f'{V}/seeded/{d}/meta.json'))
    out.append(f"| {d} | {j['property']} | {j['needs']} | {det.get(d, '?')} |")
out.append('')
out.append(open(V + '/tools/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
