"""mkseed.py ID  — reads /tmp/seeds/ID.py (a dict SEED) and writes /verif/seeded/ID/.

SEED = dict(prop=, file=, edits=[(old, new), ...], needs=, what=, kind=prelude name, demo=body)
Checks that every removed line is an original line (blames to the base commit) and that the demo
passes without and fails with the patch.  Works in a scratch copy of /repo (/tmp/seedrepo)."""
import json, os, subprocess, sys

BASE = '5a8b947'
PRE = {
 'tfl': '''import os, sys, tempfile, logging, warnings
sys.path.insert(0, os.getcwd())
os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
warnings.simplefilter('ignore')
logging.disable(logging.WARNING)
import numpy as np, torch, torch.nn as nn, torch.nn.functional as F
import tensorflow as tf
from tinynn.converter import TFLiteConverter


def convert(model, inputs, **kw):
    with tempfile.TemporaryDirectory() as d:
        path = os.path.join(d, 'm.tflite')
        with torch.no_grad():
            TFLiteConverter(model, tuple(inputs), path, **kw).convert()
        with open(path, 'rb') as f:
            return f.read()


def run(buf, inputs):
    it = tf.lite.Interpreter(model_content=buf)
    it.allocate_tensors()
    for d, x in zip(it.get_input_details(), inputs):
        it.set_tensor(d['index'], x if isinstance(x, np.ndarray) else x.detach().numpy())
    it.invoke()
    return [it.get_tensor(d['index']) for d in it.get_output_details()]


def check(model, inputs, atol=1e-4, **kw):
    model.eval()
    buf = convert(model, inputs, **{'input_transpose': False, 'output_transpose': False, **kw})
    with torch.no_grad():
        ref = model(*inputs)
    ref = [ref] if isinstance(ref, torch.Tensor) else list(ref)
    got = run(buf, inputs)
    assert len(ref) == len(got)
    for r, g in zip(ref, got):
        assert tuple(r.shape) == tuple(g.shape), (r.shape, g.shape)
        assert np.allclose(r.numpy(), g, atol=atol, rtol=1e-3), np.abs(r.numpy() - g).max()
''',
 'py': '''import os, sys, tempfile, logging, warnings
sys.path.insert(0, os.getcwd())
warnings.simplefilter('ignore')
logging.disable(logging.WARNING)
import numpy as np, torch, torch.nn as nn, torch.nn.functional as F
torch.manual_seed(0)
''',
}
SH = '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main(sid):
    ns = {}
    exec(open(f'/tmp/seeds/{sid}.py').read(), ns)
    S = ns['SEED']
    R = '/tmp/seedrepo'
    SRC = os.environ.get('VERIF_REPO', '/repo')
    if not os.path.isdir(R):
        sh(f'cp -a /repo {R}')
    sh(f'cd {R} && git checkout -q -- . && git fetch -q {SRC} HEAD 2>/dev/null; git reset -q --hard FETCH_HEAD')
    edits = S.get('edits')
    files = {}
    for e in edits:
        f, old, new = e if len(e) == 3 else (S['file'], *e)
        p = f'{R}/{f}'
        src = open(p).read()
        n = src.count(old)
        assert n == 1, (f, n, old)
        open(p, 'w').write(src.replace(old, new))
        files[f] = 1
    d = f'/verif/seeded/{sid}'
    os.makedirs(d, exist_ok=True)
    diff = sh(f'cd {R} && git diff').stdout
    # removed lines must be original
    sh(f'cd {R} && git stash -q')
    for f in files:
        bl = sh(f'cd {R} && git blame -s {f}').stdout.splitlines()
        import re
        cur = None
        infile = False
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                infile = line[6:] == f
            elif line.startswith('@@') and infile:
                cur = int(re.match(r'@@ -(\d+)', line).group(1))
            elif infile and cur and line[:1] in ' -' and not line.startswith('---'):
                if line[0] == '-':
                    h = bl[cur - 1].split()[0].lstrip('^')
                    orig = sh(f'cd {R} && git merge-base --is-ancestor {h} {BASE}').returncode == 0
                    if not orig:
                        print('NOT ORIGINAL', f, cur, bl[cur - 1])
                cur += 1
    sh(f'cd {R} && git stash drop -q')
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/demo.sh', 'w').write(SH)
    os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/demo.py', 'w').write(PRE[S['kind']] + '\n\n' + S['demo'].strip() + "\nprint('ok')\n")
    json.dump({'property': S['prop'], 'needs': S['needs'], 'what_it_breaks': S['what']}, open(f'{d}/meta.json', 'w'), indent=1)
    a = sh(f'cd {R} && bash {d}/demo.sh')
    sh(f'cd {R} && git apply {d}/patch.diff')
    b = sh(f'cd {R} && bash {d}/demo.sh')
    sh(f'cd {R} && git checkout -q -- .')
    print(sid, 'clean rc', a.returncode, '' if a.returncode == 0 else a.stderr[-1500:], '| patched rc', b.returncode, b.stderr.strip().splitlines()[-1:] )


for s in sys.argv[1:]:
    main(s)
