"""seedrun.py [ID...] — apply each planted bug to a scratch copy of /repo, run the quick check of its property, undo it."""
import json, os, subprocess, sys, time
root = '/verif/seeded'
R = '/tmp/seedrun'
SRC = os.environ.get('VERIF_REPO', '/repo')
if not os.path.isdir(R):
    subprocess.run(['cp', '-a', SRC, R], check=True)
subprocess.run(f'cd {R} && git checkout -q -- . && git fetch -q {SRC} HEAD && git reset -q --hard FETCH_HEAD', shell=True, check=True)
ids = sys.argv[1:] or sorted(os.listdir(root))
man = {c['property_id'] if 'property_id' in c else c.get('property'): c for c in json.load(open('/verif/MANIFEST.json'))['checks']}
for i in ids:
    m = json.load(open(f'{root}/{i}/meta.json'))
    p = m['property']
    subprocess.run(['git', '-C', R, 'apply', f'{root}/{i}/patch.diff'], check=True)
    t = time.time()
    try:
        r = subprocess.run(['python3', f'/verif/checks/{p}.py', '--tier', 'quick', '--no-evidence'], cwd='/verif', capture_output=True, text=True,
                           env={**os.environ, 'VERIF_REPO': R, 'VERIF_SEED': os.environ.get('VERIF_SEED', '1'), 'VERIF_TIER': 'quick'})
    finally:
        subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'], check=True)
    rf = '/verif/tools/seed_results.json'
    res = json.load(open(rf)) if os.path.exists(rf) else {}
    res[i] = f'{p} quick' if r.returncode == 1 else 'not caught'
    json.dump(res, open(rf, 'w'), indent=1, sort_keys=True)
    v = [l for l in (r.stdout + r.stderr).splitlines() if 'VIOLATION' in l]
    print(f'{i}: {"CAUGHT" if r.returncode == 1 and any("VIOLATION property=" + p in l for l in v) else "MISSED rc=%d" % r.returncode} {time.time()-t:.0f}s {v[:1]}', flush=True)
