"""Reduce failing program specs (one JSON per line on stdin) of a check: reduce.py CHECK."""
import sys, os, json, re, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import harness
harness.bootstrap()
sys.path.insert(0, os.path.join(harness.VERIF, 'checks'))
C = importlib.import_module(sys.argv[1]).CHECK
import tempfile
scr = tempfile.mkdtemp()
import os, tempfile
os.chdir(tempfile.mkdtemp())
if C.setup:
    C.setup()

def kind(m): return re.sub(r'[0-9.e-]+', '#', m.split('\n')[0])[:60]
def ev(s):
    r = harness.isolated(C, s, 60, scr, setup=False)
    return kind(r[1]) if r[0] == 'violation' else None

def rets(s):
    return [v for v in re.split(r'[ ,()]+', s['ret']) if v]

def cand(s):
    for c in cand0(s):
        b = ' '.join(c['body']) + c['ret']
        yield dict(c, init=[l for l in c.get('init', []) if not re.match(r'self\.(\w+) =', l) or re.search(r'\b%s\b' % re.match(r'self\.(\w+) =', l).group(1), b)])

def cand0(s):
    for k, v in (('gen', False), ('ctx', False), ('two', False), ('metric', 'l1_norm'), ('sparsity', 0.5), ('skip', True)):
        if k in s.get('cfg', {}) and s['cfg'][k] != v:
            yield dict(s, cfg=dict(s['cfg'], **{k: v}))
    r = rets(s)
    if len(r) > 1:
        for v in r:
            yield dict(s, ret='(' + ', '.join(x for x in r if x != v) + ',)')
    for i in reversed(range(len(s['body']))):
        line = s['body'][i]
        lhs = line.split('=')[0].strip()
        if '=' not in line or not lhs.isidentifier():
            yield dict(s, body=s['body'][:i] + s['body'][i + 1:])
            continue
        rest = s['body'][:i] + s['body'][i + 1:]
        if lhs.isidentifier() and not any(re.search(r'\b%s\b' % lhs, x) for x in rest + r):
            yield dict(s, body=rest)
        # replace by an operand
        ops = [x for x in re.findall(r'\b[vx]\d+\b', line.split('=', 1)[1])]
        if lhs.isidentifier():
            for o in dict.fromkeys(ops):
                yield dict(s, body=[re.sub(r'\b%s\b' % lhs, o, x) for x in rest], ret=re.sub(r'\b%s\b' % lhs, o, s['ret']))
    for k in list(s.get('topts', {})):
        if s['topts'][k] is True:
            yield dict(s, topts=dict(s['topts'], **{k: False}))
    for k in list(s.get('opts', {})):
        if k not in ('nchw_transpose', ):
            o = dict(s['opts']); del o[k]
            yield dict(s, opts=o)
    n = len(s['inputs']) - 1
    if n > 0 and not any(re.search(r'\bx%d\b' % n, x) for x in s['body'] + r):
        yield dict(s, inputs=s['inputs'][:-1])

for l in sys.stdin:
    l = l.strip()
    if not l.startswith('{'): continue
    s = json.loads(l); s = s.get('spec', s)
    k = ev(s)
    if not k: print('NOT FAILING', l[:100]); continue
    prog = True
    while prog:
        prog = False
        for c in cand(s):
            if ev(c) == k:
                s = c; prog = True; break
    used = ' '.join(s['body'])
    print(k, '\n', json.dumps(s), flush=True)
