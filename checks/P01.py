import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import harness
harness.bootstrap()
import copy
import re
import torch
import torch.nn as nn
from hypothesis import strategies as st
import progs, prunegen
from opgen import D
from harness import Check, Task, Violation, Reject
from tinynn.graph.tracer import model_tracer, trace
from tinynn.prune.oneshot_pruner import OneShotChannelPruner
from tinynn.util.util import import_from_path

CENTER = (nn.Conv2d, nn.ConvTranspose2d, nn.Conv1d, nn.ConvTranspose1d, nn.Linear, nn.RNN, nn.GRU, nn.LSTM)
CORE = ('cnn', 'res', 'mlp', 'split')  # the pruner has to accept these
SKIP = ('num_batches_tracked',)
_n = [0]


def distinct(model, seed):
    """No two elements of a parameter or buffer are equal, so every surviving element can be located."""
    g = progs.gen_for('distinct', seed)
    with torch.no_grad():
        for n, p in list(model.named_parameters()) + list(model.named_buffers()):
            if n.endswith(SKIP) or p.numel() == 0:
                continue
            k = p.numel()
            v = (torch.randperm(k, generator=g).float() + 0.5) / k
            fan = max(1, k // p.shape[0]) if p.dim() > 1 else 4
            v = (v + 0.25) if ('running_var' in n or (p.dim() == 1 and n.endswith('weight') and k > 1)) else (v * 2 - 1) * (1.6 / fan**0.5)
            p.copy_(v.reshape(p.shape))


class MaskedLN(nn.Module):
    """LayerNorm over the surviving features only"""

    def __init__(self, ln, keep):
        super().__init__()
        self.weight, self.bias, self.eps, self.keep = ln.weight, ln.bias, ln.eps, keep

    def forward(self, x):
        k = x[..., self.keep]
        k = nn.functional.layer_norm(k, (len(self.keep),), self.weight[self.keep], self.bias[self.keep], self.eps)
        y = torch.zeros_like(x)
        y[..., self.keep] = k
        return y


def zero_filled(orig, pruned):
    """The original architecture in which everything the pruner removed is zero."""
    ref = copy.deepcopy(orig)
    a = dict(list(ref.named_parameters()) + list(ref.named_buffers()))
    b = dict(list(pruned.named_parameters()) + list(pruned.named_buffers()))
    if set(a) != set(b):
        raise Violation(f'parameters or buffers appear or disappear: {sorted(set(a) ^ set(b))[:4]}')
    changed = 0
    with torch.no_grad():
        for n, p in a.items():
            q = b[n]
            if n.endswith(SKIP):
                continue
            if q.dim() != p.dim() or q.numel() == 0 or any(i > j for i, j in zip(q.shape, p.shape)):
                raise Violation(f'{n}: shape {tuple(p.shape)} -> {tuple(q.shape)}')
            pos = {float(v): i for i, v in enumerate(p.flatten().tolist())}
            try:
                idx = [pos[float(v)] for v in q.flatten().tolist()]
            except KeyError:
                raise Violation(f'{n}: a surviving value is not in the original')
            if len(set(idx)) != len(idx):
                raise Violation(f'{n}: an element was duplicated')
            if q.shape != p.shape:
                changed += 1
            v = torch.full_like(p, 1.0 if 'running_var' in n else 0.0).flatten()
            idx = torch.tensor(idx, dtype=torch.long)
            v[idx] = q.flatten()
            p.copy_(v.reshape(p.shape))
            p.kept = sorted(idx.tolist())
    for n, m in list(ref.named_modules()):
        if isinstance(m, nn.LayerNorm) and len(m.weight.kept) < m.weight.numel():
            par = ref.get_submodule(n.rpartition('.')[0])
            setattr(par, n.rpartition('.')[2], MaskedLN(m, m.weight.kept))
    return ref, changed


def check_attrs(model):
    for n, m in model.named_modules():
        w = getattr(m, 'weight', None)
        want = {}
        if isinstance(m, (nn.Conv1d, nn.Conv2d)):
            want = {'out_channels': w.shape[0], 'in_channels': w.shape[1] * m.groups}
            if not m.groups or w.shape[0] % m.groups:
                raise Violation(f'{n}: {w.shape[0]} output channels in {m.groups} groups')
        elif isinstance(m, (nn.ConvTranspose1d, nn.ConvTranspose2d)):
            want = {'in_channels': w.shape[0], 'out_channels': w.shape[1] * m.groups}
        elif isinstance(m, nn.Linear):
            want = {'out_features': w.shape[0], 'in_features': w.shape[1]}
        elif isinstance(m, (nn.BatchNorm1d, nn.BatchNorm2d)):
            want = {'num_features': w.shape[0]}
        elif isinstance(m, (nn.RNN, nn.GRU, nn.LSTM)):
            want = {'input_size': m.weight_ih_l0.shape[1], 'hidden_size': m.weight_ih_l0.shape[0] // {'RNN': 1, 'GRU': 3, 'LSTM': 4}[type(m).__name__]}
        for k, v in want.items():
            if getattr(m, k) != v:
                raise Violation(f'{n}.{k} is {getattr(m, k)} but the weights say {v}')
        b = getattr(m, 'bias', None)
        if isinstance(b, torch.Tensor) and 'out_channels' in want and b.numel() != want['out_channels']:
            raise Violation(f'{n}: bias of {b.numel()} elements for {want["out_channels"]} channels')
        if hasattr(m, 'masker') or len(m._forward_pre_hooks):
            raise Violation(f'{n}: masks or hooks of the pruner are left behind')


def sub_match(name, got, want):
    """got equals want restricted to some positions per dimension"""
    if got.dim() != want.dim():
        raise Violation(f'{name}: rank {want.dim()} -> {got.dim()}')
    for d in range(got.dim()):
        if got.shape[d] == want.shape[d]:
            continue
        keep, j = [], 0
        gm, wm = got.movedim(d, 0), want.movedim(d, 0)
        if any(gm.shape[k] != wm.shape[k] for k in range(1, gm.dim())):
            raise Reject('two dimensions of an output pruned')
        for i in range(gm.shape[0]):
            while j < wm.shape[0] and not torch.allclose(gm[i], wm[j], atol=1e-4, rtol=1e-3):
                j += 1
            if j == wm.shape[0]:
                raise Violation(f'{name}: slice {i} of dimension {d} is no surviving slice of the original')
            keep.append(j)
            j += 1
        want = wm[keep].movedim(0, d)
    progs.compare(name, got, want, atol=1e-4, rtol=1e-3)


def run(spec):
    c = spec['cfg']
    dummy = progs.make_inputs(spec, 0)
    model = progs.build(spec)
    distinct(model, spec['seed'])
    try:
        progs.torch_forward(model, dummy)
    except Exception as e:
        raise Reject(f'not a torch program: {type(e).__name__}')
    if not any(isinstance(m, CENTER) for m in model.modules()):
        raise Reject('nothing to prune')
    if any(isinstance(m, CENTER) and m not in used_modules(model, dummy) for m in model.modules()):
        raise Reject('unused layer')
    orig = copy.deepcopy(model)
    mode = [m.training for m in model.modules()]
    config = {'metrics': c['metric'], 'skip_last_fc': c['skip']}
    config['sparsity'] = c['sparsity'] if isinstance(c['sparsity'], float) else dict(c['sparsity'])
    try:
        with torch.no_grad():
            if c['ctx']:
                with model_tracer():
                    model2 = progs.build(spec)
                    model2.load_state_dict(model.state_dict())
                    model = model2
                    pruner = OneShotChannelPruner(model, dummy[0] if len(dummy) == 1 else tuple(dummy), config)
            else:
                pruner = OneShotChannelPruner(model, dummy[0] if len(dummy) == 1 else tuple(dummy), config)
    except Exception as e:
        if "conflict can't be eliminated" in str(e) or 'No operations to prune' in str(e):
            raise Reject(str(e)[:40])
        if spec['task'] not in CORE or 'cat(' in str(spec['body']):
            raise Reject('refused by the pruner')
        raise
    try:
        if c['two']:
            pruner.register_mask()
            pruner.apply_mask()
        else:
            pruner.prune()
    except Exception as e:
        if spec['task'] not in CORE or 'cat(' in str(spec['body']):
            raise Reject('refused by the pruner')
        raise
    check_attrs(model)
    if [m.training for m in model.modules()] != mode:
        raise Violation('training flags changed')
    ref, changed = zero_filled(orig, model)
    if c['gen'] or spec['consts']:
        # constants of the program (shapes, split sizes) are updated in the graph: the pruned network is the generated one
        _n[0] += 1
        name = f'pr{_n[0]}'
        pruner.graph.generate_code(f'{name}.py', f'{name}.pth', 'Pr')
        new = import_from_path(f'o.{name}', f'{name}.py', 'Pr')()
        new.load_state_dict(torch.load(f'{name}.pth', weights_only=True))
        new.eval()
    else:
        new = model
    for w in (1, 0):
        ins = progs.make_inputs(spec, w)
        want = progs.torch_forward(ref, ins)
        try:
            got = progs.torch_forward(new, ins)
        except Exception as e:
            raise Violation(f'the pruned model fails: {type(e).__name__}: {str(e)[:200]}')
        if len(got) != len(want):
            raise Violation(f'{len(got)} outputs')
        for i, (p, q) in enumerate(zip(got, want)):
            if p.shape == q.shape:
                progs.compare(f'input set {w}, output {i}', p, q, atol=1e-4, rtol=1e-3)
            else:
                sub_match(f'input set {w}, output {i}', p, q)
    return {'nontrivial': changed >= 2, 'tags': [spec['task'], c['metric'], f'changed{min(changed, 6)}']}


def used_modules(model, dummy):
    used = set()
    hs = [m.register_forward_hook(lambda m, i, o: used.add(m)) for m in model.modules()]
    progs.torch_forward(model, dummy)
    for h in hs:
        h.remove()
    return used


def strategy(prof, steps):
    @st.composite
    def s(draw):
        d = D(draw)
        spec = prunegen.grow(d, prof, steps)
        spec['seed'] = d.seed()
        spec['task'] = prof
        t = str(spec['body'])
        fp = not re.search('Conv1d|Transpose|LSTM|GRU|RNN', str(spec['init']))
        m = d.c(['random', 'l1_norm', 'l2_norm'] + (['fpgm'] if fp else []))
        spec['cfg'] = {'metric': m, 'sparsity': d.c([0.5, 0.5, 0.25, 0.75, 0.3, 0.6]), 'skip': d.p(3, 4), 'two': d.b(), 'gen': d.p(1, 3), 'ctx': d.p(1, 3)}
        spec['consts'] = bool(re.search(r'\b(view|reshape|split)\(', t))
        return spec

    return s()


def tasks(tier):
    return [Task(f'{p}{i}', strategy(p, (2, 6) if i % 2 else (4, 10)), 100, 3000) for p in prunegen.PROFILES for i in range(4)]


CHECK = Check('P01', tasks, run, 'a case counts when pruning shrinks at least two parameters and both input sets agree with the zero-filled original')
CHECK.fork_cases = True


def setup():
    m = nn.Sequential(nn.Conv2d(3, 4, 3), nn.ReLU(), nn.Conv2d(4, 4, 3))
    OneShotChannelPruner(m, torch.ones(1, 3, 8, 8), {'sparsity': 0.5, 'metrics': 'l1_norm'}).prune()


CHECK.setup = setup
if __name__ == '__main__':
    sys.exit(harness.main(CHECK))
