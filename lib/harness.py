"""Property-based-testing harness shared by all checks.

A check is a module that builds a `Check`: a property id, a list of `Task`s (a named Hypothesis
strategy that yields a JSON-serialisable *spec*) and `run(spec)`, the executable property, which
returns an info dict ({'nontrivial': bool, 'tags': [...]}) or raises `Violation`.

* every random choice is drawn by Hypothesis from a seed derived from VERIF_SEED and the task name;
* tasks are dealt to forked workers; which worker runs a task does not change what the task does;
* a failing spec is shrunk (bounded), re-run in a fresh process, and saved as the replay file;
* crashes (signals) and runaway cases of the code under test are confirmed in a fresh process too.
"""
import hashlib
import json
import logging
import multiprocessing as mp
import os
import pickle
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
SURVEY = bool(os.environ.get('VERIF_SURVEY'))  # development aid: group all failures instead of stopping at the first

# ---------------------------------------------------------------------------------------------
# bootstrap: environment, import paths


def bootstrap():
    want = {
        'PYTHONHASHSEED': '0',
        'OMP_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1',
        'TF_CPP_MIN_LOG_LEVEL': '3',
        'CUDA_VISIBLE_DEVICES': '',
        'TF_ENABLE_ONEDNN_OPTS': '0',
    }
    if any(os.environ.get(k) != v for k, v in want.items()) or sys.executable != PY:
        os.environ.update(want)
        if os.path.exists(PY):
            os.execv(PY, [PY] + sys.argv)
    sys.dont_write_bytecode = True
    # The editable install may point anywhere; what is checked is always REPO.
    sys.path[:] = [p for p in sys.path if p not in ('', REPO)]
    sys.path.insert(0, REPO)
    sys.path.insert(1, os.path.join(VERIF, 'lib'))
    try:
        import hypothesis  # noqa
    except ImportError:
        d = tempfile.mkdtemp(prefix='vhyp_')
        sp = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
        for n in os.listdir(sp):
            if n.split('.')[0].split('-')[0] in (
                'hypothesis',
                'sortedcontainers',
                'attr',
                'attrs',
                '_hypothesis_globals',
                '_hypothesis_ftz_detector',
            ):
                os.symlink(os.path.join(sp, n), os.path.join(d, n))
        sys.path.append(d)
        import hypothesis  # noqa
        import hypothesis.strategies  # noqa
        import hypothesis.internal.conjecture.engine  # noqa
        import atexit

        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    warnings.simplefilter('ignore')
    logging.disable(logging.CRITICAL)


class Violation(Exception):
    """The property does not hold for this spec."""


class Reject(Exception):
    """The case lies outside the property's domain (documented limitation / refused input)."""


class CaseTimeout(BaseException):
    pass


class StopShrink(KeyboardInterrupt):
    pass


class Task:
    def __init__(self, name, strategy, n, n_thorough=None):
        self.name, self.strategy, self.n = name, strategy, n
        self.n_thorough = n_thorough if n_thorough is not None else n * 12


class Check:
    fork_cases = False  # run every generated case in a forked child (code under test with sticky global state)
    case_cpu_s = 60  # CPU seconds after which a case counts as runaway
    quick_wall_s = 420  # stop starting new cases (quick); hitting it is recorded, never a violation
    thorough_wall_s = 3 * 3600
    shrink_wall_s = 45
    max_rss_mb = 3000
    nworkers = 8

    def __init__(self, pid, tasks, run, rule, known=(), assumptions=(), setup=None, simplify=None):
        self.pid, self.tasks, self.run, self.rule = pid, tasks, run, rule
        # known: list of (label, predicate(spec, message)); specs come from known_findings.json
        self.known = list(known)
        self.assumptions = list(assumptions)
        self.setup = setup


def canon(spec):
    return json.dumps(spec, sort_keys=True)


def in_repo_frames(tb):
    root = os.path.join(REPO, 'tinynn') + os.sep
    out = []
    for fs in traceback.extract_tb(tb):
        if fs.filename.startswith(root):
            out.append(f'{os.path.relpath(fs.filename, REPO)}:{fs.name}')
    return out


def evaluate(check, spec):
    """Run the property on one spec. Returns ('ok', info) | ('reject', why) | ('violation', msg) | ('error', msg)."""
    import torch

    torch.manual_seed(0)
    try:
        info = check.run(spec) or {}
        return 'ok', info
    except Reject as e:
        return 'reject', str(e)
    except Violation as e:
        return 'violation', str(e)
    except (Exception, SystemExit) as e:
        tb = e.__traceback__
        frames = in_repo_frames(tb)
        text = ''.join(traceback.format_exception(type(e), e, tb))[-2500:]
        if frames:
            return 'violation', f'unexpected {type(e).__name__}: {str(e)[:300]} in {" <- ".join(reversed(frames[-3:]))}\n{text}'
        return 'error', text


# ---------------------------------------------------------------------------------------------
# isolated run of one spec


def _silence():
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)


def isolated(check, spec, cpu_s, scratch_root, setup=True):
    """Evaluate in a fresh forked child; returns (status, msg)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.setsid()
            _silence()
            d = tempfile.mkdtemp(prefix='iso_', dir=scratch_root)
            os.chdir(d)
            resource.setrlimit(resource.RLIMIT_CPU, (int(cpu_s), int(cpu_s) + 5))
            if check.setup and setup:
                check.setup()
            res = evaluate(check, spec)
            os.write(w, pickle.dumps(res))
            os.close(w)
            shutil.rmtree(d, ignore_errors=True)
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if chunks:
        try:
            return pickle.loads(b''.join(chunks))
        except Exception:
            pass
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        if s in (signal.SIGXCPU,):
            return 'timeout', f'no result after {cpu_s} CPU seconds'
        if s == signal.SIGKILL:
            return 'killed', 'killed (memory guard?)'
        return 'violation', f'process died with signal {s} ({signal.Signals(s).name})'
    return 'error', f'child ended without a result, status {st}'


# ---------------------------------------------------------------------------------------------
# worker


class Stats:
    def __init__(self):
        self.evals = 0
        self.rejects = 0
        self.errors = []
        self.nontrivial = set()
        self.tags = {}
        self.samples = []
        self.per_task = {}
        self.reject_reasons = {}
        self.known_hits = {}
        self.timeouts = []
        self.truncated = 0
        self.survey = {}

    def merge(self, o):
        self.survey.update(o.survey)
        self.evals += o.evals
        self.rejects += o.rejects
        self.errors += o.errors
        self.nontrivial |= o.nontrivial
        for k, v in o.tags.items():
            self.tags[k] = self.tags.get(k, 0) + v
        self.samples += o.samples
        self.per_task.update(o.per_task)
        for k, v in o.reject_reasons.items():
            self.reject_reasons[k] = self.reject_reasons.get(k, 0) + v
        for k, v in o.known_hits.items():
            self.known_hits[k] = self.known_hits.get(k, 0) + v
        self.timeouts += o.timeouts
        self.truncated += o.truncated


def _alarm(signum, frame):
    raise CaseTimeout()


def run_task(check, task, tier, seed, deadline, curfile):
    """Run one task; returns (Stats, failure or None) with failure = {'spec','message'}."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, settings, given

    st = Stats()
    best = {}
    state = {'shrink_deadline': None}
    n = task.n if tier == 'quick' else task.n_thorough
    tseed = zlib.crc32(f'{seed}/{check.pid}/{task.name}'.encode())
    cnt = {'n': 0, 'nt': 0, 'rej': 0}

    def body(spec):
        now = time.time()
        if state['shrink_deadline'] is None:
            if now > deadline:
                st.truncated += 1
                raise StopShrink()
        elif now > state['shrink_deadline']:
            raise StopShrink()
        text = canon(spec)
        with open(curfile, 'w') as f:
            f.write(json.dumps({'task': task.name, 'spec': spec, 't': now}))
        signal.setitimer(signal.ITIMER_PROF, check.case_cpu_s)
        try:
            if check.fork_cases:
                status, info = isolated(check, json.loads(text), check.case_cpu_s, os.getcwd(), setup=False)
                if status == 'killed':
                    raise MemoryError(info)
            else:
                status, info = evaluate(check, json.loads(text))
        except CaseTimeout:
            status, info = 'timeout', None
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        st.evals += 1
        cnt['n'] += 1
        if status == 'ok':
            for t in info.get('tags', ()):
                st.tags[t] = st.tags.get(t, 0) + 1
            if info.get('nontrivial', True):
                cnt['nt'] += 1
                h = hashlib.sha1(canon({k: v for k, v in spec.items() if k != 'seed'}).encode()).digest()[:8]
                st.nontrivial.add(h)
                if cnt['nt'] in (2, 5):
                    st.samples.append({'task': task.name, 'spec': spec})
        elif status == 'reject':
            st.rejects += 1
            cnt['rej'] += 1
            k = str(info)[:80]
            st.reject_reasons[k] = st.reject_reasons.get(k, 0) + 1
        elif status == 'timeout':
            st.timeouts.append({'task': task.name, 'spec': spec})
            if len(st.timeouts) >= 2:
                raise StopShrink()
        elif status == 'error':
            if len(st.errors) < 3:
                st.errors.append({'task': task.name, 'spec': spec, 'message': info})
        else:
            for label, pred in check.known:
                if pred(spec, info):
                    st.known_hits[label] = st.known_hits.get(label, 0) + 1
                    return
            if SURVEY:
                import re

                k = re.sub(r'[0-9]+$', '', task.name) + ' | ' + re.sub(r'-?[0-9.]+(e-?[0-9]+)?', '#', info.split('\n')[0])[:160]
                if k not in st.survey or len(text) < len(canon(st.survey[k][1])):
                    st.survey[k] = (st.survey.get(k, (0,))[0], spec, info.split('\n')[0][:300])
                st.survey[k] = (st.survey[k][0] + 1,) + st.survey[k][1:]
                return
            if state['shrink_deadline'] is None:
                state['shrink_deadline'] = time.time() + check.shrink_wall_s
            if not best or len(text) <= len(best['text']):
                best.update(text=text, spec=json.loads(text), message=info)
            raise Violation(info)

    test = given(task.strategy)(body)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
        report_multiple_bugs=False,
        print_blob=False,
    )(test)
    test = hypothesis.seed(tseed)(test)
    try:
        test()
    except StopShrink:
        pass
    except Violation:
        pass
    except BaseException as e:  # Flaky, Unsatisfiable, generator bugs
        if not best:
            st.errors.append(
                {
                    'task': task.name,
                    'spec': None,
                    'message': ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:],
                }
            )
    st.per_task[task.name] = [cnt['n'], cnt['nt'], cnt['rej']]
    return st, (dict(task=task.name, spec=best['spec'], message=best['message']) if best else None)


def worker_main(check, tasks, counter, stop, tier, seed, deadline, scratch, conn, wid):
    os.setpgid(0, 0)
    _silence()
    d = os.path.join(scratch, f'w{wid}_{os.getpid()}')
    os.makedirs(d)
    os.chdir(d)
    signal.signal(signal.SIGPROF, _alarm)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import torch

    torch.set_num_threads(1)
    if check.setup:
        check.setup()
    cur = os.path.join(scratch, f'cur{wid}')
    while not stop.value:
        with counter.get_lock():
            i = counter.value
            counter.value += 1
        if i >= len(tasks):
            break
        conn.send(('start', i))
        try:
            st, fail = run_task(check, tasks[i], tier, seed, deadline, cur)
        except BaseException as e:
            st, fail = Stats(), None
            st.errors.append({'task': tasks[i].name, 'spec': None, 'message': traceback.format_exc()[-3000:]})
        conn.send(('done', i, st, fail))
        for f in os.listdir(d):
            p = os.path.join(d, f)
            if os.path.isdir(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                try:
                    os.unlink(p)
                except OSError:
                    pass
        try:
            with open('/proc/self/statm') as f:
                rss = int(f.read().split()[1]) * 4096 / 1e6
            if rss > check.max_rss_mb:
                conn.send(('recycle',))
                break
        except OSError:
            pass
    conn.close()
    os._exit(0)


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        data = json.load(f)
    return [k for k in data.get('findings', []) if k['property'] == pid]


def main(check):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='substring of task names')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--workers', type=int, default=0)
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--keep-going', action='store_true', help='do not stop after several violations')
    args = ap.parse_args()
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f'verif_{check.pid}_')
    rc = 3
    try:
        if args.replay:
            with open(args.replay) as f:
                rec = json.load(f)
            spec = rec.get('spec', rec)
            status, msg = isolated(check, spec, 3 * check.case_cpu_s, scratch)
            print(status, msg if isinstance(msg, str) else json.dumps(msg, default=str))
            rc = 1 if status in ('violation', 'timeout') else (0 if status in ('ok', 'reject') else 2)
            if rc == 1:
                print(f'VIOLATION property={check.pid} replay={args.replay}')
            return rc
        rc = _main(check, args, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        sys.stdout.flush()
    return rc


def _main(check, args, scratch, t0):
    tier, seed = args.tier, args.seed
    tasks = check.tasks(tier) if callable(check.tasks) else list(check.tasks)
    if args.only:
        tasks = [t for t in tasks if args.only in t.name]
    if args.scale != 1.0:
        for t in tasks:
            t.n = max(1, int(t.n * args.scale))
            t.n_thorough = max(1, int(t.n_thorough * args.scale))
    # long tasks first for balance; order is fixed, so it does not influence results
    tasks.sort(key=lambda t: -(t.n if tier == 'quick' else t.n_thorough))
    total = Stats()
    fails = []
    wall = check.quick_wall_s if tier == 'quick' else check.thorough_wall_s
    deadline = t0 + wall

    # 1. pinned regression inputs (shrunk failures of earlier runs and hand-picked corner cases)
    pinned = []
    cdir = os.path.join(VERIF, 'corpus', check.pid)
    if os.path.isdir(cdir) and not args.only:
        for f in sorted(os.listdir(cdir)):
            if f.endswith('.json'):
                with open(os.path.join(cdir, f)) as fh:
                    pinned.append((f, json.load(fh).get('spec')))
    known_entries = load_known(check.pid)

    class PinnedTask:
        pass

    nw = args.workers or check.nworkers
    # pinned + known entries run isolated, a few at a time
    jobs = [('pinned', f, s) for f, s in pinned] + [('known', k['id'], k['spec']) for k in known_entries if k.get('spec')]
    results = _run_isolated_pool(check, jobs, scratch, nw)
    known_out = []
    for (kind, name, spec), (status, msg) in zip(jobs, results):
        if kind == 'pinned':
            total.evals += 1
            if status in ('violation', 'timeout'):
                hit = None
                for label, pred in check.known:
                    if pred(spec, str(msg)):
                        hit = label
                if hit:
                    total.known_hits[hit] = total.known_hits.get(hit, 0) + 1
                else:
                    fails.append({'task': f'corpus/{name}', 'spec': spec, 'message': str(msg), 'confirmed': True})
            elif status == 'error':
                total.errors.append({'task': f'corpus/{name}', 'spec': spec, 'message': str(msg)})
            elif status == 'ok':
                total.nontrivial.add(hashlib.sha1(canon(spec).encode()).digest()[:8])
        else:
            ent = [k for k in known_entries if k['id'] == name][0]
            if status in ('violation', 'timeout'):
                known_out.append(ent)
    for ent in known_entries:
        if not ent.get('spec'):
            known_out.append(ent)

    # 2. generated search
    ctx = mp.get_context('fork')
    counter = ctx.Value('i', 0)
    stop = ctx.Value('i', 0)
    workers = {}
    suspects = []

    def spawn(wid):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(
            target=worker_main, args=(check, tasks, counter, stop, tier, seed, deadline, scratch, b, wid), daemon=True
        )
        p.start()
        b.close()
        workers[wid] = {'p': p, 'conn': a, 'task': None, 't': time.time(), 'dead': False}

    for w in range(min(nw, max(1, len(tasks)))):
        spawn(w)
    ndone = 0
    crash_budget = 6
    while any(not w['dead'] for w in workers.values()):
        live = {w['conn']: wid for wid, w in workers.items() if not w['dead']}
        ready = mp.connection.wait(list(live), timeout=2.0)
        for c in ready:
            wid = live[c]
            w = workers[wid]
            try:
                m = c.recv()
            except (EOFError, OSError, pickle.UnpicklingError):
                w['p'].join(5)
                code = w['p'].exitcode
                w['dead'] = True
                if w['task'] is not None:
                    try:
                        with open(os.path.join(scratch, f'cur{wid}')) as f:
                            cur = json.load(f)
                    except Exception:
                        cur = None
                    suspects.append((code, tasks[w['task']].name, cur))
                    crash_budget -= 1
                if counter.value < len(tasks) and not stop.value and crash_budget > 0:
                    spawn(wid)
                continue
            if m[0] == 'start':
                w['task'] = m[1]
                w['t'] = time.time()
            elif m[0] == 'done':
                w['task'] = None
                ndone += 1
                total.merge(m[2])
                if m[3]:
                    fails.append(m[3])
                    if len(fails) >= 4 and not args.keep_going:
                        stop.value = 1
        # hard-stuck workers (native loops): kill, handled as crash suspects
        for wid, w in workers.items():
            if not w['dead'] and w['task'] is not None:
                cf = os.path.join(scratch, f'cur{wid}')
                try:
                    age = time.time() - os.stat(cf).st_mtime
                except OSError:
                    age = time.time() - w['t']
                if age > 6 * check.case_cpu_s:
                    os.kill(w['p'].pid, signal.SIGKILL)
    for t in total.timeouts:
        suspects.append(('timeout', t['task'], {'spec': t['spec']}))

    for k, (n, sp, msg) in sorted(total.survey.items()):
        print(f'SURVEY {n:4d} {k}\n       {msg}\n       {canon(sp)}')
    # 3. confirm in a fresh process
    confirmed = []
    unrepro = []
    seen = set()
    for code, name, cur in suspects[:4]:
        if not cur or cur.get('spec') is None:
            total.errors.append({'task': name, 'spec': None, 'message': f'worker died (exit {code}) outside a case'})
            continue
        status, msg = isolated(check, cur['spec'], 3 * check.case_cpu_s, scratch)
        if status in ('violation', 'timeout') and not any(p(cur['spec'], str(msg)) for _, p in check.known):
            confirmed.append({'task': name, 'spec': cur['spec'], 'message': str(msg)})
        elif status == 'killed':
            total.errors.append({'task': name, 'spec': cur['spec'], 'message': 'killed twice (memory)'})
        else:
            unrepro.append({'task': name, 'spec': cur['spec'], 'message': f'worker exit {code}; alone: {status}'})
    for f in fails:
        if canon(f['spec']) in seen:
            continue
        seen.add(canon(f['spec']))
        if f.pop('confirmed', False):
            confirmed.append(f)
            continue
        status, msg = isolated(check, f['spec'], 3 * check.case_cpu_s, scratch)
        if status in ('violation', 'timeout'):
            f['message'] = str(msg)
            confirmed.append(f)
        else:
            unrepro.append({'task': f['task'], 'spec': f['spec'], 'message': f"{f['message'][:500]} | alone: {status} {str(msg)[:500]}"})

    # 4. report
    for ent in known_out:
        print(f"KNOWN-FINDING: property={check.pid} {ent['id']}: {ent['what']}")
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    for f in confirmed:
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha1(canon(f['spec']).encode()).hexdigest()[:10]
        path = os.path.join(rdir, f'{check.pid}-{h}.json')
        with open(path, 'w') as fh:
            json.dump({'property': check.pid, 'task': f['task'], 'spec': f['spec'], 'message': f['message']}, fh, indent=1)
        print(f"--- task {f['task']}: {f['message'][:1500]}\n    spec: {canon(f['spec'])[:1500]}")
        print(f'VIOLATION property={check.pid} replay={path}')
    for e in total.errors[:5]:
        print(f"HARNESS-ERROR task={e['task']} spec={canon(e['spec'])[:600] if e['spec'] else None}\n{e['message'][-1500:]}", file=sys.stderr)
    for e in unrepro[:5]:
        print(f"UNREPRODUCED task={e['task']} {e['message'][:600]}", file=sys.stderr)
    # pick diverse samples
    total.samples.sort(key=lambda s: s['task'])
    step = max(1, len(total.samples) // 12)
    wall_s = time.time() - t0
    ev = {
        'property': check.pid,
        'tier': tier,
        'seed': seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': total.evals,
            'distinct_nontrivial': len(total.nontrivial),
            'rule': check.rule,
            'samples': total.samples[::step][:14] or [{'note': 'no sample'}],
            'tasks': len(tasks),
            'tasks_completed': ndone,
            'rejected': total.rejects,
            'reject_reasons': dict(sorted(total.reject_reasons.items(), key=lambda kv: -kv[1])[:25]),
            'tags': dict(sorted(total.tags.items())),
            'per_task_cases_nontrivial_rejected': total.per_task,
            'pinned_inputs': len(pinned),
            'known_findings_shown': [k['id'] for k in known_out],
            'excluded_as_known': total.known_hits,
            'unreproduced': [u['message'][:200] for u in unrepro],
            'tasks_cut_by_wall_clock': total.truncated,
            'harness_errors': len(total.errors),
        },
        'assumptions': check.assumptions,
        'wall_s': round(wall_s, 2),
        'violations': len(confirmed),
    }
    if not args.no_evidence:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{check.pid}.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
    low = {k: v for k, v in total.per_task.items() if v[0] and v[1] < 0.3 * v[0]}
    print(
        f'{check.pid} tier={tier} seed={seed} cases={total.evals} nontrivial={len(total.nontrivial)} rejected={total.rejects} '
        f'tasks={ndone}/{len(tasks)} violations={len(confirmed)} unreproduced={len(unrepro)} errors={len(total.errors)} '
        f'cut={total.truncated} wall={wall_s:.1f}s'
    )
    if os.environ.get('VERIF_DEBUG'):
        print('low-yield tasks:', low)
        print('rejects:', ev['coverage']['reject_reasons'])
        print('tags:', ev['coverage']['tags'])
    if confirmed:
        return 1
    if total.errors or total.evals == 0:
        return 2
    return 0


def _run_isolated_pool(check, jobs, scratch, nw):
    results = [None] * len(jobs)
    if not jobs:
        return results
    # simple static fan-out: nw helper processes, each evaluates its slice through isolated()
    ctx = mp.get_context('fork')

    def helper(idx, conn):
        out = []
        for i in idx:
            out.append((i, isolated(check, jobs[i][2], 3 * check.case_cpu_s, scratch)))
        conn.send(out)
        conn.close()
        os._exit(0)

    procs = []
    for k in range(min(nw, len(jobs))):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=helper, args=(list(range(k, len(jobs), nw)), b))
        p.start()
        b.close()
        procs.append((p, a))
    for p, a in procs:
        try:
            for i, r in a.recv():
                results[i] = r
        except EOFError:
            pass
        p.join()
    for i, r in enumerate(results):
        if r is None:
            results[i] = ('error', 'helper died')
    return results
