import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import harness
harness.bootstrap()
import contextlib
import copy
import gc
import io
import torch
import torch._dynamo  # (replaces torch.manual_seed on import)
import torch.nn as nn
import torch.nn.functional as F
from hypothesis import strategies as st
import graphgen, progs, pygen
from opgen import D
from harness import Check, Task, Violation, Reject
import tinynn.graph.tracer as tracer
from tinynn.graph.tracer import model_tracer, trace
from tinynn.util.util import import_from_path

NS = [('torch', torch), ('torch.Tensor', torch.Tensor), ('torch.nn.functional', F), ('torch.linalg', torch.linalg), ('torch.fft', torch.fft), ('torch.special', torch.special), ('torch._C._TensorBase', torch._C.TensorBase), ('torch.overrides', torch.overrides)]
BASE = {}


def api_snapshot():
    snap = {}
    for n, o in NS:
        for a in dir(o):
            try:
                snap[n, a] = getattr(o, a)
            except Exception:
                pass
    for a in dir(nn):
        c = getattr(nn, a)
        if isinstance(c, type) and issubclass(c, nn.Module):
            for f in ('__init__', '__setattr__', 'forward', '__call__'):
                snap[f'nn.{a}', f] = getattr(c, f)
    snap['torch.Size', '__new__'] = torch.Size.__new__
    return snap


def same(a, b):
    if a is b:
        return True
    try:
        return type(a) is type(b) and bool(a == b)
    except Exception:
        return False


def check_api(when):
    now = api_snapshot()
    bad = [k for k, v in BASE.items() if k not in now or not same(now[k], v)]
    if bad:
        raise Violation(f'{when}: PyTorch functions are left patched: {[".".join(map(str, k)) for k in bad[:4]]} ({len(bad)})')
    x = torch.tensor([[1.0, -2.0], [3.0, 4.0]])
    if x[0, 1].item() != -2.0 or x[[0]].shape != (1, 2) or type(x.shape) is not torch.Size or type(x.size(0)) is not int or x[:, 0].tolist() != [1.0, 3.0]:
        raise Violation(f'{when}: plain tensor indexing or shapes behave differently')
    for op, want in (('add', [[2.0, -1.0], [4.0, 5.0]]), ('mul', [[1.0, -2.0], [3.0, 4.0]])):
        if getattr(x, op)(1).tolist() != want:
            raise Violation(f'{when}: plain tensor arithmetic behaves differently')


class Subject:
    def __init__(self, spec, hook):
        self.spec = spec
        self.model = progs.build(spec)
        self.dummy = progs.make_inputs(spec, 0)
        self.probe = progs.make_inputs(spec, 1)
        self.calls = []
        if hook:
            mods = list(self.model.modules())
            mods[-1].register_forward_hook(lambda m, i, o: self.calls.append(1))
            mods[0].register_forward_pre_hook(lambda m, i: self.calls.append(2))
        self.snap()

    def structure(self):
        m = self.model
        return {
            'sub-modules': [(n, id(q), type(q)) for n, q in m.named_modules()],
            'training flags': [q.training for q in m.modules()],
            'parameters': [(n, id(p), p.requires_grad, p.grad is None) for n, p in m.named_parameters()],
            'buffers': [(n, tuple(b.shape), b.dtype) for n, b in m.named_buffers()],
            'hooks': [(len(q._forward_hooks), len(q._forward_pre_hooks), len(q._backward_hooks)) for q in m.modules()],
            'attributes': [sorted(k for k in vars(q)) for q in m.modules()],
            'forward': [getattr(q.forward, '__func__', q.forward) for q in m.modules()],
        }

    def snap(self):
        self.struct = self.structure()
        self.state = {k: v.clone() for k, v in self.model.state_dict().items()}
        self.din = [d.clone() for d in self.dummy]

    def outputs(self):
        training = [q.training for q in self.model.modules()]
        self.model.eval()
        out = progs.torch_forward(self.model, self.probe)
        for q, t in zip(self.model.modules(), training):
            q.training = t
        return out

    def check(self, when):
        for k, v in self.structure().items():
            if v != self.struct[k]:
                raise Violation(f'{when}: {k} of a model changed')
        now = self.model.state_dict()
        for k, v in self.state.items():
            if k not in now or not torch.equal(torch.nan_to_num(now[k].double()), torch.nan_to_num(v.double())):
                raise Violation(f'{when}: state "{k}" of a model changed')
        for a, b in zip(self.dummy, self.din):
            if not torch.equal(torch.nan_to_num(a.double()), torch.nan_to_num(b.double())) or a.requires_grad or a.grad is not None:
                raise Violation(f'{when}: the example inputs changed')


def code_of(graph, name):
    graph.generate_code(f'{name}.py', f'{name}.pth', 'Traced')
    with open(f'{name}.py') as f:
        code = f.read()
    code = code[: code.index('if __name__')]
    w = torch.load(f'{name}.pth', weights_only=True)
    return code, {k: (tuple(v.shape), float(torch.nan_to_num(v.double()).sum())) for k, v in w.items()}


class Boom(nn.Module):
    """A model whose forward fails somewhere."""

    def __init__(self, m, where):
        super().__init__()
        self.m = m
        self.where = where
        self.bad = nn.Linear(3, 3) if where == 'layer' else nn.Identity()

    def forward(self, *xs):
        if self.where == 'early':
            raise ValueError('planned failure')
        y = progs.flat(self.m(*xs))[0]
        if self.where == 'layer':
            return self.bad(y.reshape(-1).repeat(5)[:2].float())
        if self.where == 'func':
            return torch.cat([y, y.unsqueeze(0)])
        y.reshape(y.shape[0] + 12345, -1)


def failing_trace(m, dummy, where, pts):
    """Tracing a model that fails ends in SystemExit (or in the exception); the caller survives it."""
    stdin = sys.stdin
    sys.stdin = open(os.devnull)
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            trace(Boom(m, where), dummy, patch_torch_size=pts)
    except (SystemExit, Exception):
        return
    finally:
        sys.stdin.close()
        sys.stdin = stdin
    raise Violation('a model whose forward raises an exception was traced')


_n = [0]


def run(spec):
    for p in spec['progs']:
        if any(progs.SETITEM.match(l) for l in p['body']):
            raise Reject('item assignment')
        try:
            m = progs.build(p)
            ins = progs.make_inputs(p, 0)
            probe = [i.clone() for i in ins]
            with torch.no_grad():
                a = progs.flat(m(*probe))
            progs.torch_forward(m, progs.make_inputs(p, 1))
        except Exception as e:
            raise Reject(f'not a torch program: {type(e).__name__}')
        if any(i._version for i in probe):
            raise Reject('modifies its inputs')
    if not BASE:
        BASE.update(api_snapshot())
    subj, graphs, ctx = {}, [], []
    codes = {}
    ntrace = ctxid = 0
    for k, op in enumerate(spec['ops']):
        when = f'after operation {k} ({op[0]})'
        if op[0] == 'build':
            _, i, slot, hook, train = op
            s = Subject(spec['progs'][i], hook)
            s.prog = i
            s.ctx = bool(ctx)
            subj[slot] = s
            s.outs = s.outputs()
            if train:
                s.model.train()
                if train == 2 and len(list(s.model.children())):
                    list(s.model.children())[0].eval()
                try:
                    copy.deepcopy(s.model)(*[i.clone() for i in s.dummy])
                except Exception as e:
                    raise Reject(f'training-mode forward fails: {str(e)[:60]}')
                s.calls.clear()
            s.snap()
        elif op[0] == 'drop':
            subj.pop(op[1], None)
            graphs = [g for g in graphs if g[0] != op[1]]
            gc.collect()
        elif op[0] == 'enter':
            ctxid += 1
            c = model_tracer()
            c.__enter__()
            ctx.append(c)
        elif op[0] == 'exit':
            if ctx:
                ctx.pop().__exit__(None, None, None)
                # the constructor lines noted inside the context are gone
                graphs = []
        elif op[0] == 'trace':
            _, slot, edg, pts = op
            if slot not in subj:
                continue
            s = subj[slot]
            edg = edg and progs.live_inputs(s.spec) == len(s.spec['inputs'])
            n0 = len(s.calls)
            g = trace(s.model, s.dummy, eliminate_dead_graph=edg, patch_torch_size=pts)
            ntrace += 1
            _n[0] += 1
            c = code_of(g, f'm{_n[0]}')
            graphs.append((slot, g, c, s))
            key = (s.prog, slot, edg, pts, id(s), ctxid if ctx else 0)
            if codes.setdefault(key, (c, s))[0] != c:
                raise Violation(f'{when}: tracing the same model again yields different code or weights\n{diff(codes[key][0][0], c[0])}')
        elif op[0] == 'fail':
            _, slot, where, pts = op
            if slot not in subj:
                continue
            s = subj[slot]
            calls = list(s.calls)
            failing_trace(s.model, s.dummy, where, pts)
            s.calls[:] = calls
            if not ctx and tracer.lock():
                raise Violation(f'{when}: interception stays disabled')
        elif op[0] == 'failbuild':
            try:
                with model_tracer():
                    nn.Linear(3, 4)
                    if op[1]:
                        trace(nn.ReLU(), [torch.ones(1, 2)])
                    nn.Conv2d(3, 4, 3, groups=2)
            except ValueError:
                pass
            ctxid += 1
        elif op[0] == 'regen':
            if graphs:
                slot, g, c, s = graphs[op[1] % len(graphs)]
                _n[0] += 1
                c2 = code_of(g, f'm{_n[0]}')
                if c2 != c:
                    raise Violation(f'{when}: generating code from the same graph again yields a different program or weights\n{diff(c[0], c2[0])}')
        elif op[0] == 'verify':
            if graphs:
                slot, g, c, s = graphs[op[1] % len(graphs)]
                if s.model.training and any('self.training' in l for l in s.spec['body']):
                    continue  # flags passed to functions are recorded as values
                _n[0] += 1
                code_of(g, f'm{_n[0]}')
                try:
                    new = import_from_path(f'o.m{_n[0]}', f'm{_n[0]}.py', 'Traced')()
                    new.load_state_dict(torch.load(f'm{_n[0]}.pth', weights_only=True))
                    got = progs.torch_forward(new.eval(), s.probe)
                except Exception as e:
                    raise Violation(f'{when}: the generated model fails: {type(e).__name__}: {str(e)[:300]}')
                if len(got) != len(s.outs):
                    raise Violation(f'{when}: number of outputs')
                for a, b in zip(got, s.outs):
                    progs.compare(f'{when}: generated model', a, b, atol=1e-6, rtol=1e-5)
        for slot, s in subj.items():
            s.check(when)
        if not ctx:
            check_api(when)
    while ctx:
        ctx.pop().__exit__(None, None, None)
    check_api('at the end')
    for slot, s in subj.items():
        for a, b in zip(s.outputs(), s.outs):
            progs.compare('at the end: a traced model computes something else', a, b, exact=True) if not (a.is_floating_point() and a.isnan().any()) else None
    return {'nontrivial': ntrace >= 2, 'tags': [f'ops{len(spec["ops"]) // 4 * 4}'] + sorted({o[0] for o in spec['ops']})}


def diff(a, b):
    import difflib

    return '\n'.join(list(difflib.unified_diff(a.split('\n'), b.split('\n'), lineterm='', n=0))[:14])


@st.composite
def history(draw, prof, nops):
    d = D(draw)
    ps = []
    for _ in range(d.i(1, 3)):
        p = graphgen.grow(d, **dict(PROFILES[prof]))
        p['seed'] = d.seed()
        p.pop('opts', None)
        ps.append(progs.rename(p, d) if d.p(1, 4) else p)
    ops = []
    depth = 0
    fails = 0
    alive = []
    for _ in range(d.i(5, nops)):
        c = ['build', 'trace', 'trace', 'trace', 'regen', 'verify', 'verify', 'drop', 'enter' if depth == 0 else 'exit', 'fail' if not fails or d.p(1, 3) else 'trace']
        k = d.c(c) if alive else 'build' if d.p(4, 5) else c[-2]
        if k == 'build':
            slot = d.i(0, 2)
            ops.append([k, d.i(0, len(ps) - 1), slot, d.p(1, 4), d.c([0, 0, 0, 1, 2])])
            alive.append(slot)
        elif k == 'trace':
            ops.append([k, d.c(alive), d.b(), d.p(1, 5)])
        elif k in ('regen', 'verify'):
            ops.append([k, d.i(0, 3)])
        elif k == 'drop':
            ops.append([k, d.c(alive)])
        elif k == 'fail':
            fails += 1
            if depth == 0 and d.p(1, 3):
                ops.append(['failbuild', d.b()])
            else:
                ops.append([k, d.c(alive), d.c(['early', 'layer', 'func', 'late']), d.p(1, 5)])
        elif k == 'enter':
            depth = 1
            ops.append([k])
        else:
            depth = 0
            ops.append([k])
    for k in range(2):
        ops.append(['trace', d.c(alive or [0]), d.b(), False])
        ops.append(['verify', 9 if d.b() else d.i(0, 3)])
    return {'progs': ps, 'ops': ops, 'task': prof}


PROFILES = {'plain': dict(steps=(1, 4)), 'py': dict(steps=(1, 5), tags=('py',), extra=pygen.PY), 'mix': dict(steps=(2, 7), extra=pygen.PY)}


def tasks(tier):
    return [Task(f'{p}{i}', history(p, n), 50, 2500) for p in PROFILES for i, n in enumerate((8, 8, 14, 14, 20))]


CHECK = Check(
    'T02',
    tasks,
    run,
    'random histories of up to 24 operations (build a model, enter or leave the tracing context, trace with different options, generate code again, load and run generated code, drop a model, fail to trace or to build a model) over up to three random programs; '
    'after every operation the PyTorch API, and the structure, state, flags, hooks, attributes and example inputs of every model are compared with a snapshot; repeated traces and code generation must agree; '
    'non-trivial: at least two traces in the history; distinct: spec without its seed',
    assumptions=['models follow the rules of the tracer (no data-dependent control flow, inputs not modified in place)'],
)
CHECK.fork_cases = True


def setup():
    with model_tracer():
        m = torch.nn.Sequential(torch.nn.Linear(2, 2), torch.nn.ReLU())
        trace(m, [torch.ones(1, 2)]).generate_code('warm.py', 'warm.pth', 'Warm')


if __name__ == '__main__':
    # what PyTorch looks like before anything was traced in this process tree
    BASE.update(api_snapshot())
    CHECK.setup = setup
    sys.exit(harness.main(CHECK))
BASE.update(api_snapshot())
CHECK.setup = setup
