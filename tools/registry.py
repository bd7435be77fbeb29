"""Single source of properties.jsonl, MANIFEST.json and the 'fixed' list of known_findings.json.  Run: python3 tools/registry.py"""
import json, os, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from proptable import PROPS, NOT_APPLICABLE, FIX_PROPERTY, KNOWN

with open(f'{V}/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }) + '\n')

checks = []
for p in PROPS:
    if not os.path.exists(f"{V}/checks/{p['id']}.py"):
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f"python3 checks/{p['id']}.py --tier quick",
        'thorough_cmd': f"python3 checks/{p['id']}.py --tier thorough",
        'technique': p['tech'],
        'level': 'exploration',
        'level_note': p['note'],
    })
na = list(NOT_APPLICABLE)
have = {c['property'] for c in checks}
for p in PROPS:
    if p['id'] not in have and p['id'] not in {n['property'] for n in na}:
        na.append({'property': p['id'], 'reason': 'check under construction'})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup_check.py', 'checks': checks, 'not_applicable': na}, open(f'{V}/MANIFEST.json', 'w'), indent=1)

log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
fixed, missing = [], []
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        prop = next((p for k, p in FIX_PROPERTY.items() if k in s), "C01")
        if prop is None:
            missing.append(s)
            prop = 'C01'
        fixed.append(f'fixed: property={prop} {h} {s[5:]}')
json.dump({'findings': KNOWN, 'fixed': fixed}, open(f'{V}/known_findings.json', 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'checks', len(fixed), 'fixes; unmapped:', missing)

head = open(f'{V}/tools/design_head.md').read()
tail = open(f'{V}/tools/design_tail.md').read()
body = ''.join(f"### {p['id']} — {p['title']}\n\n{p['statement']}\n\n{p.get('design', '')}\n\n" for p in PROPS)
if na:
    body += '## 3. Not applicable\n\n' + ''.join(f"* {n['property']}: {n['reason']}\n" for n in na) + '\n'
else:
    body += '## 3. Not applicable\n\nNone: every listed property is decided by generated-input search. Parts of the repository that cannot run here are out of reach of any check: `tinynn.llm_quant` (needs transformers), the TensorRT utilities, `quantization_analysis_util` (needs matplotlib).\n\n'
res = json.load(open(f'{V}/tools/seed_results.json')) if os.path.exists(f'{V}/tools/seed_results.json') else {}
rows = ''
for i in sorted(os.listdir(f'{V}/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    rows += f"| {i} | {res.get(i, '?')} | {m['what_it_breaks']} — needs: {m['needs']} |\n"
open(f'{V}/DESIGN.md', 'w').write(head + body + tail + rows)
